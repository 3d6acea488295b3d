"""
Runs streamed aggregations with limited memory (real code from /repo), looking at
the store, at the data still held and at the calls of user functions each time a
chunk of data is asked, and records them as traces for spec/TraceOupsMemory.tla.
"""
import gc
import json
import os
import random
import shutil
import sys
import tempfile
import weakref
from functools import partial

import numpy as np
import pandas as pd

from oups import AggStream
from oups import ParquetSet
from oups import toplevel
from oups.aggstream import by_x_rows
from watch import watched

T0 = pd.Timestamp("2020-03-01")
MIN = pd.Timedelta(minutes=1)
MB = 1048576


@toplevel
class K:
    name: str


class Run:
    def __init__(self, case, root):
        self.case, self.rng = case, random.Random(case["seed"])
        self.dir = root
        rng = self.rng
        t, rows = rng.randint(0, 200), []
        self.sizes = [[rng.choice(case["sizes"]) for _ in range(rng.choice(case["chunks"]))] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            # Many short calls.
            self.sizes = [[n] for c in self.sizes for n in c]
        # Share of calls without final write.
        self.pauses = rng.choice([0.5, 1, 0.9])
        dense = case.get("dense")
        gaps = [1] if dense else rng.choice([[1], [1, 2], [1, 4], [3]])
        for _ in range(sum(map(sum, self.sizes))):
            rows.append([t, rng.randint(1, 50), 1])
            t += rng.choice(gaps)
        self.rows = rows
        self.keys = []
        for i in range(1 if dense else rng.choice([1, 1, 2, 3])):
            kind = "period" if dense else rng.choice(["period", "period", "rows"])
            cfg = {"kind": kind, "ends": [], "labs": [], "lead": 0, "f": rng.choice([1, 2, 3, 5] if kind == "rows" else [1, 2, 3, 5, 10]),
                   "closed": rng.choice(["left", "right"]) if kind == "period" else "left", "label": "left", "org": 0, "snap": rng.choice(["none", "none", "period"]), "g": rng.choice([1, 2, 5, 60]),
                   "slabel": "right", "sorg": 0, "pts": [], "aggs": []}
            # Few sequences of functions (each one is a compilation).
            agg = rng.choice([{"i_s": ("i", "sum")}, {"i_s": ("i", "sum"), "j_s": ("j", "sum")}, {"i_s": ("i", "sum"), "f_l": ("f", "last")},
                              {"i_s": ("i", "sum"), "j_s": ("j", "sum"), "f_l": ("f", "last"), "g_l": ("f", "last")}])
            lim = rng.choice(case["limits"])
            if dense:
                # Many bins for a few snapshots, or the contrary.
                cfg["f"], cfg["g"] = rng.choice([(1, 60), (30, 1)])
                cfg["snap"] = rng.choice(["none", "period", "period"])
            k = {"cfg": cfg, "agg": agg, "lim": lim, "main": K(f"k{i}"), "snap": K(f"s{i}"), "w": 8 * len(agg)}
            k["cfg"]["aggs"] = [["sum", 2]]
            k["key"] = (k["main"], k["snap"]) if cfg["snap"] == "period" else k["main"]
            kw = {"agg": agg, "bin_on": "t", "bin_by": pd.Grouper(key="t", freq=f"{cfg['f']}min", closed=cfg["closed"], label="left")
                  if kind == "period" else partial(by_x_rows, by=cfg["f"])}
            if kind == "period":
                kw.pop("bin_on")
            if cfg["snap"] == "period":
                kw["snap_by"] = pd.Grouper(key="t", freq=f"{cfg['g']}min", closed=cfg["closed"], label="right")
            if rng.random() < 0.3:
                kw["post"] = self.post_both if cfg["snap"] == "period" else self.post_one
            k["kw"] = kw
            self.keys.append(k)
        self.pres = 0
        self.arrays = []

    @staticmethod
    def post_one(buffer, bin_res):
        return bin_res

    @staticmethod
    def post_both(buffer, bin_res, snap_res):
        return bin_res, snap_res

    def pre(self, on, buffer):
        self.pres += 1

    def frame(self, rows):
        vals = np.array([r[1] for r in rows], dtype="int64")
        self.arrays.append(weakref.ref(vals))
        df = pd.DataFrame({"i": vals}, copy=False)
        df["j"] = df["i"].to_numpy() * 2
        df["f"] = df["i"].to_numpy() / 4
        df["t"] = pd.Series([T0 + r[0] * MIN for r in rows], dtype="datetime64[ns]")
        return df

    def disk(self):
        store = ParquetSet(os.path.join(self.dir, "store"), K)
        return [[len(store[k[x]].pdf) if k[x] in store else 0 for x in ("main", "snap")] for k in self.keys]

    def look(self, op, asked):
        gc.collect()
        self.steps.append({"op": op, "asked": asked, "disk": self.disk(), "pre": self.pres,
                           "alive": sum(a() is not None for a in self.arrays)})

    def seed(self, sizes, rows):
        off = 0
        for n in sizes:
            self.asked += 1
            self.look("ask", self.asked)
            self.steps[-1]["n"] = n
            yield self.frame(rows[off:off + n])
            off += n

    def run(self):
        self.steps, self.asked = [], 0
        store = ParquetSet(os.path.join(self.dir, "store"), K)
        glob = self.rng.random() < 0.3
        kws = {}
        keys = {}
        for k in self.keys:
            kw = dict(k["kw"])
            if glob:
                k["lim"] = self.keys[0]["lim"]
                kws["max_in_memory_size"] = k["lim"] / MB
            else:
                kw["max_in_memory_size"] = k["lim"] / MB
            keys[k["key"]] = kw
        trace = {"id": self.case["id"], "rows": self.rows, "steps": self.steps,
                 "keys": [{"cfg": k["cfg"], "lim": k["lim"], "w": k["w"]} for k in self.keys]}
        try:
            as_ = AggStream(ordered_on="t", store=store, keys=keys, pre=self.pre, parallel=self.rng.random() < 0.15, **kws)
            off = 0
            for i, sizes in enumerate(self.sizes):
                n = sum(sizes)
                final = i == len(self.sizes) - 1 or self.rng.random() >= self.pauses
                as_.agg(self.seed(sizes, self.rows[off:off + n]), trim_start=False, discard_last=False, final_write=final)
                off += n
                self.look("final" if final else "pause", self.asked)
                self.steps[-1]["n"] = 0
        except Exception as e:
            self.steps.append({"op": "raised", "asked": self.asked, "disk": [], "pre": 0, "alive": 0, "n": 0, "exc": f"{type(e).__name__}: {e}"[:300]})
        return trace


def run_case(case):
    root = tempfile.mkdtemp(prefix="m", dir=os.path.dirname(os.path.abspath(sys.argv[2])))
    try:
        return Run(case, root).run()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    job = json.load(open(sys.argv[1]))
    traces = [run_case(c) for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

"""
Creates aggregation objects ('AggStream', real code from /repo) with settings and
after histories of aggregations, and records what is accepted, refused, and what
is in the store, as traces for spec/TraceOupsSettings.tla.
"""
import copy
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
from functools import partial

import pandas as pd
from pandas import Grouper

from oups import AggStream
from oups import ParquetSet
from oups import toplevel
from oups.aggstream import by_x_rows
from oups.store.writer import OUPS_METADATA
from watch import watched

T0 = pd.Timestamp("2021-05-01")


@toplevel
class K:
    name: str
    kind: str


def main_key(i):
    return K(f"k{i}", "m")


def snap_key(i):
    return K(f"s{i}", "s")


def frame(ts):
    return pd.DataFrame({"t": [T0 + pd.Timedelta(minutes=x) for x in ts], "v": list(range(1, len(ts) + 1)), "x": list(range(len(ts))),
                         "c": [1] * len(ts)})


class Case:
    def __init__(self, case, scratch):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.dir = tempfile.mkdtemp(prefix="s", dir=scratch)
        self.base = os.path.join(self.dir, "store")
        self.trace = {"id": case["id"], "steps": [], "info": {}}

    # -------------------------------------------------------------- observation
    def image(self):
        """Files, with their content."""
        out = []
        for root, _, files in sorted(os.walk(self.base)):
            for f in sorted(files):
                p = os.path.join(root, f)
                out.append((os.path.relpath(p, self.base), hashlib.md5(open(p, "rb").read()).hexdigest()))
        return out

    def observe(self):
        store = ParquetSet(self.base, K)
        res = []
        for i in range(1, 5):
            ob = {"kind": "none", "r": []}
            try:
                if main_key(i) in store:
                    h = store[main_key(i)]
                    len(h.pdf)
                    md = h._oups_metadata if "oups" in h.metadata else {}
                    ob["kind"] = "plain"
                    if "aggstream" in (md or {}):
                        ob["kind"] = "agg"
                        r = (md["aggstream"]["restart_index"] - T0) / pd.Timedelta(minutes=1)
                        ob["r"] = [int(r)]
            except Exception as e:
                ob["kind"] = f"unreadable {type(e).__name__}"
            res.append(ob)
        return res

    # -------------------------------------------------------------- settings
    def key_conf(self, k):
        main, snap = k["main"], k["snap"]
        key = (main_key(main), snap_key(snap)) if snap else main_key(main)
        kw = {}
        if k["outs"]:
            kw["agg"] = {o: ("v", "sum") for o in k["outs"]}
        if k["binby"] == "period":
            kw["bin_by"] = Grouper(freq="2T", closed=k["closed"], label="left", **({"key": k["bkey"]} if k["bkey"] else {}))
        elif k["binby"] == "callable":
            kw["bin_by"] = partial(by_x_rows, by=2, closed=k["closed"])
        elif k["binby"] == "other":
            kw["bin_by"] = self.rng.choice(["2T", 5, pd.Series([1, 2])])
        if k["bon"]:
            kw["bin_on"] = (k["bon"], k["bout"]) if k["bout"] else k["bon"]
        if k["snapby"]:
            kw["snap_by"] = Grouper(freq="1T", closed=k["sclosed"], label="right", **({"key": k["skey"]} if k["skey"] else {}))
        if k["unknown"]:
            kw[self.rng.choice(["binby", "max_in_memory", "dupes", "Agg"])] = 1
        return key, kw

    def settings(self, s, only_kw=False):
        """Parameters of AggStream."""
        kw = {}
        if s["unknown"]:
            kw[self.rng.choice(["duplicate_on", "Snap_by", "max_row_groups"])] = "t"
        if s["given"]:
            kw["filters"] = {f["id"]: None if f["none"] else self.rng.choice([[("c", ">=", 0)], [[("c", "==", 1)], [("c", ">", 5)]]])
                             for f in s["filters"]}
        if s["form"] == "one":
            key, conf = self.key_conf(s["groups"][0]["keys"][0])
            return {"keys": key, **kw, **conf}
        conf = {}
        for g in s["groups"]:
            d = conf.setdefault(g["id"], {})
            for k in g["keys"]:
                key, c = self.key_conf(k)
                # Some parameters may come from the object itself.
                d[key] = c
        if s["form"] == "dict":
            conf = conf["_"]
        return {"keys": conf, **kw}

    def create(self, s, parallel=False):
        if self.rng.random() < 0.3:
            parallel = True
        kw = self.settings(s)
        # What the caller provides: structure, and values.
        before = copy.copy(kw)
        struct = repr({k: v for k, v in kw.items()})
        as_, exc = None, ""
        try:
            as_ = AggStream(ordered_on="t", store=ParquetSet(self.base, K), parallel=parallel, **kw)
        except Exception as e:
            exc = f"{type(e).__name__}: {e}"[:200]
        intact = int(repr(dict(kw)) == struct and all(kw[k] is before[k] for k in before))
        return as_, exc, intact

    # -------------------------------------------------------------- steps
    def add(self, step):
        step["obs"] = self.observe()
        self.trace["steps"].append(step)

    def step(self, s):
        rng = self.rng
        if s["op"] == "plain":
            st = ParquetSet(self.base, K)
            df = frame([3, 4, 8])
            kw = rng.choice([{}, {"metadata": {"a": "aggstream"}}, {"max_row_group_size": 2}, "md"])
            if kw == "md":
                OUPS_METADATA[main_key(s["key"])] = {"other": {"restart_index": 1}}
                kw = {}
            st[main_key(s["key"])] = (kw, df) if kw else df
            OUPS_METADATA.clear()
            self.add(dict(s))
        elif s["op"] == "del":
            del ParquetSet(self.base, K)[main_key(s["key"])]
            self.add(dict(s))
        elif s["op"] == "run":
            im = self.image()
            as_, exc, _ = self.create(s["s"])
            if as_ is not None:
                ts = list(range(0, s["to"] + 1))
                cut = rng.randint(0, len(ts))
                seed = [frame(c) for c in (ts[:cut], ts[cut:]) if c]
                try:
                    as_.agg(seed=iter(seed), trim_start=True, discard_last=True)
                except Exception as e:
                    exc = f"{type(e).__name__}: {e}"[:200]
            self.add({**s, "exc": exc, "same": int(self.image() == im)})
        elif s["op"] == "create":
            im = self.image()
            _, exc, intact = self.create(s["s"])
            step = {**s, "exc": exc, "same": int(self.image() == im), "intact": intact}
            self.trace["steps"].append(step)
        elif s["op"] == "order":
            im = self.image()
            chunks, swap = self.unordered()
            pre = None
            if swap:
                def pre(on, buffer):
                    buffer["n"] = buffer.get("n", 0) + 1
                    if buffer["n"] == swap:
                        on["t"] = frame(chunks[swap - 1])["t"]
                sorted_chunks = [sorted(c) for c in chunks]
            else:
                sorted_chunks = chunks
            kw = self.settings(s["s"])
            as_, exc = None, ""
            try:
                as_ = AggStream(ordered_on="t", store=ParquetSet(self.base, K), parallel=rng.random() < 0.4, pre=pre, **kw)
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"[:200]
            created = int(as_ is not None)
            if created:
                try:
                    as_.agg(seed=iter([frame(c) for c in sorted_chunks]), discard_last=True)
                except Exception as e:
                    exc = f"{type(e).__name__}: {e}"[:200]
            self.trace["steps"].append({**s, "chunks": chunks, "created": created, "exc": exc, "same": int(self.image() == im)})
        elif s["op"] == "badrun":
            im = self.image()
            key, kw = self.key_conf(s["s"]["groups"][0]["keys"][0])
            exc = ""
            if s["kind"] == "column":
                kw["agg"] = {"v": ("v", "sum"), "w": ("absent", "max")}
            elif s["kind"] == "function":
                kw["agg"] = {"v": ("v", "sum"), "w": ("v", rng.choice(["mean", "Sum", "std"]))}
            else:
                def post(buffer, bin_res, snap_res):
                    return bin_res
                kw["post"] = post
            try:
                AggStream(ordered_on="t", store=ParquetSet(self.base, K), keys=key, **kw).agg(
                    seed=[frame([40, 41, 42]), frame([43, 46])], discard_last=rng.random() < 0.5)
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"[:200]
            self.trace["steps"].append({**s, "exc": exc, "same": int(self.image() == im)})
        OUPS_METADATA.clear()

    def unordered(self):
        """Chunks of which one, once gathered with what remains of the previous one, is not in ascending order."""
        rng = self.rng
        t = 30
        chunks = []
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(2, 4)
            chunks.append([t + i for i in range(n)])
            t += n
        if rng.random() < 0.5:
            # Starts ahead of the last row of the previous chunk.
            last = chunks[-1][-1]
            chunks.append([last - rng.randint(1, 3), last + rng.randint(1, 4)])
            return chunks, 0
        c = [t, t + 2, t + 1, t + 5]
        chunks.append(c)
        return chunks, len(chunks)

    def run(self):
        try:
            for s in self.case["steps"]:
                self.step(s)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace


def main():
    job = json.load(open(sys.argv[1]))
    traces = [Case(c, job["scratch"]).run() for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

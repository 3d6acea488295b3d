"""
Runs histories of streamed aggregations on 'AggStream' (real code from /repo) and
records them as traces for spec/TraceOupsAggStream.tla. Only produces inputs and
projects results: the verdict is that of the specification.
"""
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
from functools import partial

import numpy as np
import pandas as pd
from pandas import Grouper

import oups.aggstream.aggstream as agmod
import oups.store.collection as colmod
from oups import AggStream
from oups import ParquetSet
from oups import toplevel
from oups.aggstream import by_x_rows
from oups.aggstream.aggstream import SeedPreException
from oups.store.writer import OUPS_METADATA
from drv_seg import by_marks
from watch import watched

T0 = pd.Timestamp("2020-03-01")
UNITS = {"s": pd.Timedelta(seconds=1), "min": pd.Timedelta(minutes=1), "h": pd.Timedelta(hours=1)}
CODE = {"s": "S", "min": "T", "h": "H"}
PER_DAY = {"s": 86400, "min": 1440, "h": 24}
WRONG = -999999
ORDERS = {"i": [("first", "last", "min", "max", "sum"), ("sum", "max", "first")],
          "f": [("last", "sum", "min", "first", "max"), ("max",)],
          "ts": [("first", "last", "min", "max")]}
NAMES = {"i": ["a", "b"], "f": ["fa"], "ts": ["tb"]}


class Stop(Exception):
    """The process stops here."""


class Halt(BaseException):
    """The process stops here (not to be caught by the code)."""


@toplevel
class K:
    name: str
    kind: str


def divisors(n, upto):
    return [d for d in range(1, upto + 1) if n % d == 0]


# ------------------------------------------------------------------ schedules
class Gates:
    """
    Threads stop at gates, and are released one at a time as per a priority
    order, which forces an interleaving. Any interleaving is legal: a gate never
    decides anything, and opens by itself if nothing else moves.
    """

    def __init__(self, prio):
        self.cv = threading.Condition()
        self.waiting = {}
        self.prio = prio
        self.i = 0
        self.count = 0
        self.last = time.monotonic()
        self.trail = []

    def at(self, who):
        with self.cv:
            me = self.count
            self.count += 1
            self.waiting[me] = who
            self.last = time.monotonic()
            while True:
                idle = time.monotonic() - self.last
                if idle > 0.004 and self.pick() == me:
                    break
                self.cv.wait(0.002)
            del self.waiting[me]
            self.i += 1
            self.last = time.monotonic()
            self.trail.append(list(who))
            self.cv.notify_all()

    def pick(self):
        order = self.prio[self.i % len(self.prio)]
        return min(self.waiting, key=lambda m: (order.index(self.waiting[m][0]) if self.waiting[m][0] in order else 99, m))


class Case:
    def __init__(self, case, scratch):
        self.case, self.prof = case, case["profile"]
        self.rng = rng = random.Random(case["seed"])
        self.dir = tempfile.mkdtemp(prefix="a", dir=scratch)
        self.hist = case.get("hist")
        self.unit = "min" if self.hist else rng.choice(["s", "min", "min", "h"])
        self.gen_seed()
        self.gen_keys()
        self.counter = {"posts": {}, "pre": []}
        self.stop = None
        self.gates = None
        # Seed check which modifies seed chunks in place.
        self.touch = rng.randint(1, 9) if rng.random() < self.prof.get("touch", 0.25) else 0
        self.trace = {"id": case["id"], "p": case["prop"], "keys": [k["spec"] for k in self.keys], "steps": [],
                      "info": {"unit": self.unit, "otype": self.otype, "kw": [str(k["kw"]) for k in self.keys],
                               "parallel": self.parallel, "touch": self.touch, "nkeys": len(self.keys)}}

    # -------------------------------------------------------------- inputs
    def gen_seed(self):
        rng, prof = self.rng, self.prof
        if self.hist:
            self.seed = [[*r] for r in self.hist["seed"]]
            return
        day = PER_DAY[self.unit]
        n = rng.choice(prof["n"])
        t = rng.choice([0, 0, 1, 5, day - 3, day, 3 * day - 7, rng.randint(0, 2 * day)])
        gaps = rng.choice([[0, 1], [0, 0, 1, 2], [0, 1, 1, 7], [1, 2, 3], [0, 1, 2, 30], [0, 0, 0, 1], [5, 10], [1]])
        self.seed = []
        # Values kept over some rows: marks for user-defined bins.
        self.marks = rng.random() < 0.3
        mark = rng.randint(1, 60)
        for _ in range(n):
            mark = rng.choice([mark, mark, rng.randint(1, 60)])
            self.seed.append([t, rng.choice([1, 2, 3, 4, 5, 8, 9, 20]), mark if self.marks else rng.randint(1, 60), rng.randint(0, 3), rng.randint(0, 1)])
            t += rng.choice(gaps)

    def gen_filter(self):
        rng = self.rng
        dnf = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            conj = []
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(["==", "=", "!=", ">", ">=", "<", "<=", "in", "not in", "~", "in", "=="])
                if op == "~":
                    conj.append([5, op, [0]])
                    continue
                col = rng.choice([4, 4, 4, 3, 1])
                if col == 4:
                    v = [rng.randint(0, 3) for _ in range(rng.choice([1, 2, 3]))]
                elif col == 3:
                    v = [rng.choice([20, 30, 40])]
                else:
                    v = [rng.choice(self.seed)[0]]
                conj.append([col, op, v if op in ("in", "not in") else v[:1]])
            dnf.append(conj)
        if rng.random() < 0.1:
            dnf = [[[4, ">", [99]]]]       # No row.
        return dnf

    def gen_keys(self):
        rng, prof, hist = self.rng, self.prof, self.hist
        nk = len(hist["keys"]) if hist else rng.choice(prof["nkeys"])
        kinds = []
        use_filters = any(k["filt"] for k in hist["keys"]) if hist else rng.random() < prof.get("filters", 0)
        # Keys declared later.
        late = set()
        if hist:
            late = set(range(nk)) - {k - 1 for k in hist["act"]}
        elif nk > 1 and rng.random() < prof.get("late", 0):
            late = set(rng.sample(range(nk), rng.choice([1, 1, nk - 1])))
        self.late, self.active = late, set(range(nk)) - late
        self.filters = {}
        if hist:
            for k in hist["keys"]:
                if k["filt"] and k["filt"] not in self.filters.values():
                    self.filters[f"f{len(self.filters)}"] = k["filt"]
        elif use_filters:
            for i in range(rng.choice([1, 2, 2, 3])):
                self.filters[f"f{i}"] = self.gen_filter()
        fids = list(self.filters) + ["_"]
        day = PER_DAY[self.unit]
        start = self.seed[0][0]
        self.keys = []
        # Ordering column is of type timestamp if periods are used.
        all_rows = not hist and rng.random() < prof.get("int_time", 0.15)
        self.otype = rng.choice(["int", "float"]) if all_rows else "ts"
        for i in range(nk):
            if hist:
                h = hist["keys"][i]
                cfg, res, post = dict(h["cfg"]), h["res"], h["post"]
                fid = next((f for f, d in self.filters.items() if d == h["filt"]), "_") if h["filt"] else "_"
            else:
                fid = fids[i] if use_filters and i < len(fids) - 1 else rng.choice(fids) if use_filters else "_"
                kind = "rows" if all_rows else rng.choice(["period", "period", "rows"])
                if self.marks and rng.random() < 0.5:
                    kind = "marks"
                closed = rng.choice(["left", "right"])
                snap = "none" if all_rows else rng.choice(prof["snaps"])
                if kind == "period":
                    odd = rng.random() < 0.1 and not late
                    f = rng.choice([7, 11, 5]) if odd and day % 7 else rng.choice([d for d in divisors(day, 30)])
                    org = (start // day) * day if odd else 0
                    if odd and day % f == 0:
                        org = 0
                else:
                    f, org = rng.choice([1, 2, 3, 4, 5]), 0
                cfg = {"kind": kind, "f": f, "closed": closed, "label": rng.choice(["left", "right"]), "org": org, "snap": snap,
                       "g": rng.choice(divisors(day, 12)), "slabel": rng.choice(["right", "right", "left"]), "sorg": 0, "pts": []}
                res = "bins" if snap == "none" else rng.choice(["both", "both", "snaps"])
                post = rng.choice(prof["post"])
            if cfg["kind"] == "period" and day % cfg["f"] and use_filters and fid != "_":
                # The origin of these periods is the day of the first row of the key.
                cfg["org"], cfg["f"] = 0, 5 if self.unit != "h" else 6
            # Aggregations.
            per = []
            if hist:
                aggs = [("a" if c == 2 else "b", fn) for fn, c in cfg["aggs"]]
            else:
                for group in rng.choice([["i"], ["i", "f"], ["f"], ["i", "ts"], ["ts", "f"]]):
                    order = rng.choice(ORDERS[group])
                    per.append([(rng.choice(NAMES[group]), fn) for fn in order])
                aggs = []
                while any(per):
                    aggs.append(rng.choice([p for p in per if p]).pop(0))
            cols = {"a": 2, "b": 3, "fa": 2, "tb": 3}
            cfg["aggs"] = [[fn, cols[c]] for c, fn in aggs]
            agg = {f"{c}_{fn}": (c, fn) for c, fn in aggs}
            name = f"k{i}"
            main, snapk = K(name, "main"), K(name, "snap")
            kw = {"agg": agg}
            u = CODE[self.unit]
            if cfg["kind"] == "period":
                g = dict(freq=f"{cfg['f']}{u}", closed=cfg["closed"], label=cfg["label"])
                form = rng.choice(["key", "key", "bin_on", "out"])
                if form == "key":
                    kw["bin_by"] = partial(Grouper, key="t", **g)
                else:
                    kw["bin_by"], kw["bin_on"] = partial(Grouper, **g), "t"
            elif cfg["kind"] == "marks":
                kw["bin_by"], kw["bin_on"], form = partial(partial, by_marks, closed=cfg["closed"]), ("b", "t"), "two"
            else:
                kw["bin_by"] = partial(partial, by_x_rows, by=cfg["f"], closed=cfg["closed"])
                form = rng.choice(["none", "none", "bin_on", "two", "out"])
                if form == "bin_on":
                    kw["bin_on"] = "t"
                elif form == "two":
                    kw["bin_on"] = ("b", "t")
            out = "t"
            if form == "out":
                # Name of the column of labels in results.
                out = "label"
                kw["bin_on"], kw["ordered_on"] = ("t", "label"), "label"
            if rng.random() < 0.15:
                kw["duplicates_on"] = rng.choice([None, out, [out]])
            if cfg["snap"] == "period":
                # With user-defined bins, points of observation are closed as bins are.
                own = cfg["closed"] if cfg["kind"] == "period" or rng.random() < 0.6 else rng.choice(["left", "right"])
                kw["snap_by"] = partial(Grouper, key="t", freq=f"{cfg['g']}{u}", closed=own, label=cfg["slabel"])
            if post != "none":
                kw["post"] = self.make_post(i, res, post)
            mem = rng.choice(prof["mem"])
            if mem is not None:
                kw["max_in_memory_size"] = mem
            mrg = rng.choice([None, 1, 2, 3, 5])
            if mrg is not None:
                kw["max_row_group_size"] = (mrg, rng.choice([1, 2, 4])) if res == "both" and rng.random() < 0.3 else mrg
                if rng.random() < 0.3:
                    kw["max_nirgs"] = rng.choice([0, 1, 2])
            spec = {"cfg": cfg, "filt": self.filters.get(fid, []), "res": res, "post": post}
            self.keys.append({"spec": spec, "kw": kw, "fid": fid, "main": main, "snap": snapk, "agg": agg,
                              "key": (main, snapk) if res == "both" else main, "out": out})
        self.use_filters = use_filters
        self.parallel = rng.random() < prof.get("parallel", 0.3)

    def in_domain(self):
        for k in self.keys:
            cfg = k["spec"]["cfg"]
            if cfg["kind"] in ("rows", "marks"):
                rows = [r for r in self.seed if self.passes(r, k["spec"]["filt"])]
                ts = [r[0] for r in rows]
                if cfg["kind"] == "rows":
                    starts = list(range(0, len(rows), cfg["f"]))
                else:
                    starts = [j for j in range(len(rows)) if not j or rows[j][2] != rows[j - 1][2]]
                labels = ts if self.late else [ts[j] for j in starts]
                if len(set(labels)) != len(labels):
                    return False
                if cfg["snap"] != "none" and cfg["closed"] == "right" and not all(ts[j - 1] < ts[j] for j in starts[1:]):
                    return False
        # All filters are in use.
        return not self.use_filters or {k["fid"] for k in self.keys} >= set(self.filters)

    @staticmethod
    def passes(r, dnf):
        """Only for the selection of inputs."""
        def holds(c):
            x, op, v = r[c[0] - 1], c[1], c[2]
            return {"==": x == v[0], "=": x == v[0], "!=": x != v[0], ">": x > v[0], ">=": x >= v[0], "<": x < v[0],
                    "<=": x <= v[0], "in": x in v, "not in": x not in v, "~": x == 0}[op]
        return not dnf or any(all(holds(c) for c in conj) for conj in dnf)

    # -------------------------------------------------------------- values
    def time(self, v):
        if self.otype == "ts":
            return T0 + v * UNITS[self.unit]
        return int(v) if self.otype == "int" else v / 2

    def untime(self, v):
        try:
            x = (pd.Timestamp(v) - T0) / UNITS[self.unit] if self.otype == "ts" else v if self.otype == "int" else v * 2
            return int(x) if int(x) == x else WRONG
        except Exception:
            return WRONG

    def frame(self, rows, start=0):
        dt = {"ts": "datetime64[ns]", "int": "int64", "float": "float64"}[self.otype]
        df = pd.DataFrame({
            "t": pd.Series([self.time(r[0]) for r in rows], dtype=dt),
            "a": pd.Series([r[1] - self.touch for r in rows], dtype="int64"),
            "fa": pd.Series([r[1] / 4 - self.touch for r in rows], dtype="float64"),
            "b": pd.Series([r[2] for r in rows], dtype="int64"),
            "tb": pd.Series([T0 + pd.Timedelta(hours=r[2]) for r in rows], dtype="datetime64[ns]"),
            "c": pd.Series([r[3] for r in rows], dtype="int64"),
            "s": pd.Series([f"v{r[3]}" for r in rows], dtype="object"),
            "q": pd.Series([bool(r[4]) for r in rows], dtype="bool"),
        })
        df.index = range(start, start + len(rows))
        return df

    @staticmethod
    def value(v, col):
        if v is pd.NA or v is pd.NaT or v is None or (isinstance(v, float) and np.isnan(v)):
            return []
        try:
            x = v * 4 if col == "fa" else (pd.Timestamp(v) - T0) / pd.Timedelta(hours=1) if col == "tb" else v
            return [int(x)] if int(x) == x else [WRONG]
        except Exception:
            return [WRONG]

    def rows(self, k, df):
        """Results as <<label, values>>."""
        if df is None or not len(df):
            return []
        names = list(k["agg"])
        if k["out"] not in df.columns or any(n not in df.columns for n in names):
            return [[WRONG, []]]
        cols = [[self.value(v, k["agg"][n][0]) for v in df[n]] for n in names]
        return [[self.untime(lab), [c[i] for c in cols]] for i, lab in enumerate(df[k["out"]])]

    # -------------------------------------------------------------- user functions
    def make_post(self, i, res, kind):
        def post(buffer, bin_res, snap_res=None):
            k = self.keys[i]
            if self.gates:
                self.gates.at((i, "post"))
            n = buffer.get("n", 0)
            self.hit("post")
            rec = {"bins": self.rows(k, bin_res), "snaps": self.rows(k, snap_res), "n": n, "rb": [], "rs": []}
            buffer["n"] = n + 1
            b, s = bin_res, snap_res
            if kind == "select":
                # Rows with values only.
                b = bin_res.dropna().reset_index(drop=True)
                s = None if snap_res is None else snap_res.dropna().reset_index(drop=True)
            warm = kind == "warm" and n < 2
            if not warm:
                rec["rb"] = self.rows(k, b) if res != "snaps" else []
                rec["rs"] = self.rows(k, s) if res != "bins" else []
            self.counter["posts"].setdefault(i, []).append(rec)
            if warm:
                return (None, None) if res == "both" else None
            return b if res == "bins" else s if res == "snaps" else (b, s)
        return post

    def pre(self, on, buffer):
        self.hit("pre")
        n = buffer.get("n", 0)
        self.counter["pre"].append(n)
        if self.fail and len(self.counter["checks"]) + 1 == self.fail:
            self.counter["checks"].append(n)
            raise self.fail_exc(self.fail_msg)
        self.counter["checks"].append(n)
        buffer["n"] = n + 1
        if self.touch:
            on["a"] += self.touch
            on.loc[:, "fa"] = on.loc[:, "fa"] + self.touch

    def hit(self, kind):
        """Points at which a run may stop."""
        if self.stop and self.stop[0] == kind:
            self.stop[1] -= 1
            if self.stop[1] == 0:
                self.stopped = True
                raise Halt() if kind == "pre" else Stop()

    # -------------------------------------------------------------- store
    def new(self):
        self.store = ParquetSet(os.path.join(self.dir, "store"), K)
        conf = {}
        keys_ = [self.keys[i] for i in sorted(self.active)]
        for k in keys_:
            kw = {x: v() if isinstance(v, partial) and x in ("bin_by", "snap_by") else v for x, v in k["kw"].items()}
            conf.setdefault(k["fid"], {})[k["key"]] = kw
        kws = {"pre": self.pre}
        if self.rng.random() < 0.3:
            # Settings of one of the keys given as default ones for all keys.
            all_kw = {key: kw for ks in conf.values() for key, kw in ks.items()}
            one = self.rng.choice(list(all_kw.values()))
            for param in self.rng.sample(["agg", "post", "snap_by", "max_in_memory_size", "max_row_group_size", "max_nirgs"], 3):
                if param in one and not isinstance(one[param], tuple):
                    kws[param] = one.pop(param)
                    for kw in all_kw.values():
                        if param in ("post", "snap_by") and kw is not one:
                            kw.setdefault(param, None)
        names = {1: "t", 3: "b", 4: "c", 5: "q"}
        if self.use_filters:
            filters = {}
            for f, dnf in self.filters.items():
                if f not in conf:
                    continue
                out = []
                for conj in dnf:
                    cs = []
                    for col, op, v in conj:
                        vals = [self.time(x) for x in v] if col == 1 else v
                        if op in ("in", "not in"):
                            val = self.rng.choice([list, set, tuple])(vals)
                        else:
                            val = vals[0]
                            if col == 1 and self.otype == "ts":
                                val = np.datetime64(val)
                        cs.append((names[col], op, val))
                    out.append(cs)
                filters[f] = out[0] if len(out) == 1 and self.rng.random() < 0.3 else out
            if "_" in conf and self.rng.random() < 0.3:
                filters["_"] = None
            kws["filters"] = filters
            keys = conf
        else:
            keys = conf["_"]
        if len(keys_) == 1 and not self.use_filters and "ordered_on" not in keys_[0]["kw"] and self.rng.random() < 0.5:
            k = keys_[0]
            kw = keys[k["key"]]
            self.as_ = AggStream(ordered_on="t", store=self.store, keys=k["key"], **(kws | kw))
        else:
            self.as_ = AggStream(ordered_on="t", store=self.store, keys=keys, parallel=self.parallel, **kws)

    def record(self):
        store = ParquetSet(os.path.join(self.dir, "store"), K)
        out = []
        for k in self.keys:
            ob = {"ex": int(k["main"] in store), "bins": [], "snaps": [], "r": [], "n": 0, "pn": 0}
            try:
                if ob["ex"]:
                    h = store[k["main"]]
                    md = (h._oups_metadata or {}).get("aggstream", {}) if "oups" in h.metadata else {}
                    main = self.rows(k, h.pdf)
                    ob["snaps" if k["spec"]["res"] == "snaps" else "bins"] = main
                    if md.get("restart_index") is not None:
                        ob["r"] = [self.untime(md["restart_index"])]
                        ob["n"] = (md.get("post_buffer") or {}).get("n", 0)
                        ob["pn"] = (md.get("pre_buffer") or {}).get("n", 0)
                if k["spec"]["res"] == "both" and k["snap"] in store:
                    ob["snaps"] = self.rows(k, store[k["snap"]].pdf)
            except Exception as e:
                ob["bins"] = [[WRONG, []]]
                self.trace["info"]["record_exc"] = f"{type(e).__name__}: {e}"[:300]
            out.append(ob)
        return out

    # -------------------------------------------------------------- steps
    def step_new(self, first=False):
        if not self.hist and self.late - self.active and not first and self.rng.random() < 0.6:
            self.active.add(self.rng.choice(sorted(self.late - self.active)))
        step = {"op": "new", "exc": "", "act": [i + 1 for i in sorted(self.active)]}
        try:
            self.new()
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"[:300]
        self.trace["steps"].append(step)
        return step["exc"] == ""

    def chunks_of(self, rows):
        rng = self.rng
        n = len(rows)
        if n == 0:
            return []
        m = min(n - 1, rng.choice(self.prof["cuts"]))
        cuts = sorted(rng.sample(range(1, n), m)) if n > 1 else []
        chunks = [rows[a:b] for a, b in zip([0, *cuts], [*cuts, n])]
        if rng.random() < 0.1:
            chunks.insert(rng.randint(0, len(chunks)), [])
        return chunks

    def step_agg(self, chunks, trim, discard, final, fail=0, kind="", stop=None, gates=None):
        rng = self.rng
        self.fail, self.stop, self.stopped = (fail if kind == "check" else 0), list(stop) if stop else None, False
        self.fail_msg = rng.choice(["wrong value", "check 12: 'é'", "seed data is not valid."])
        self.fail_exc = rng.choice([ValueError, RuntimeError, AssertionError])
        if kind == "order":
            # A chunk having distinct ordering values.
            cands = [i for i, c in enumerate(chunks) if len({r[0] for r in c}) > 1]
            if cands:
                fail = rng.choice(cands) + 1
                ch = chunks[fail - 1] = list(chunks[fail - 1])
                js = [j for j in range(len(ch) - 1) if ch[j][0] != ch[j + 1][0]]
                j = rng.choice(js)
                ch[j], ch[j + 1] = ch[j + 1], ch[j]
            else:
                fail, kind = 0, ""
        self.failed_at = fail
        self.counter = {"posts": {}, "pre": [], "checks": []}
        step = {"op": "agg", "chunks": chunks, "trim": trim, "discard": discard, "final": final,
                "fail": fail if kind == "check" else 0, "msg": self.fail_msg}
        obs = {"exc": "", "msg": ""}
        frames, off = [], 0
        keepidx = rng.random() < 0.5
        for ch in chunks:
            frames.append(self.frame(ch, off if keepidx else 0))
            off += len(ch)
        form = rng.choice(["list", "iter", "df", "iter"])
        seed = iter(frames) if form == "iter" else frames[0] if form == "df" and len(frames) == 1 else frames
        if not frames and form == "df":
            seed = None
        if gates:
            self.gates = Gates(gates)
        # What is given by the caller is not to be changed.
        copies = [f.copy(deep=True) for f in frames]
        try:
            self.as_.agg(seed=seed, trim_start=trim, discard_last=discard, final_write=final)
        except SeedPreException as e:
            obs["exc"], obs["msg"] = "seed", str(e)
        except (Stop, Halt):
            obs["exc"] = "crash"
        except Exception as e:
            obs["exc"] = "crash" if self.stopped else f"other {type(e).__name__}: {e}"[:300]
        if self.gates:
            step["info"] = None
            self.trace["info"].setdefault("schedules", []).append(self.gates.trail)
            del step["info"]
        self.gates = None
        self.stop = None
        obs["input"] = int(bool(self.touch) or all(x.equals(y) and x.index.equals(y.index) and x.columns.equals(y.columns)
                                                   for x, y in zip(frames, copies)))
        obs["pre"] = self.counter["pre"]
        obs["posts"] = [self.counter["posts"].get(i, []) for i in range(len(self.keys))]
        if obs["exc"] == "crash":
            OUPS_METADATA.clear()
        obs["rec"] = self.record()
        step["obs"] = obs
        self.trace["steps"].append(step)
        return obs["exc"]

    # -------------------------------------------------------------- histories
    def run(self):
        try:
            getattr(self, "run_" + self.prof["do"])()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace

    def parts(self, n):
        """Cut seed in calls."""
        rng = self.rng
        m = min(max(n - 1, 0), rng.choice(self.prof["calls"]) - 1)
        cuts = sorted(rng.sample(range(1, n), m)) if n > 1 else []
        return list(zip([0, *cuts], [*cuts, n]))

    def run_hist(self):
        """History generated by TLC."""
        for s in [{"op": "new", "act": self.hist["act"]}, *self.hist["steps"]]:
            if s["op"] == "new":
                self.active = {k - 1 for k in s["act"]}
                if not self.step_new():
                    return
            else:
                stop = None
                if s["crash"]:
                    stop = [s["crash"][0], s["crash"][1]]
                exc = self.step_agg([[*c] for c in s["chunks"]], s["trim"], s["discard"], s["final"], s["fail"], "check" if s["fail"] else "",
                                    stop, gates=[[k - 1] for k in s["order"]] if self.prof.get("gates") and s["order"] else None)
                if exc.startswith("other"):
                    return

    def run_plain(self):
        """Successive parts, all rows being kept."""
        if self.hist:
            return self.run_hist()
        rng = self.rng
        if not self.step_new(True):
            return
        parts = self.parts(len(self.seed))
        for j, (a, b) in enumerate(parts):
            final = j == len(parts) - 1 or rng.random() < 0.7
            gates = None
            if self.prof.get("gates"):
                gates = [rng.sample(range(len(self.keys)), len(self.keys)) for _ in range(12)]
            if self.step_agg(self.chunks_of(self.seed[a:b]), False, False, final, gates=gates).startswith("other"):
                return
            if rng.random() < 0.12:
                # Without data: only a final write, possibly.
                final = rng.random() < 0.7
                if self.step_agg([], False, False, final).startswith("other"):
                    return
            if final and rng.random() < 0.5 and not self.step_new():
                return

    def feeds(self, upto, restart):
        """Rows provided again: from some row ahead of the restart index."""
        first = next((i for i, r in enumerate(self.seed[:upto]) if r[0] >= restart), upto) if restart is not None else 0
        return self.seed[self.rng.choice([0, first, self.rng.randint(0, first)]):upto]

    def restart(self):
        v = getattr(self.as_, "seed_config", {}).get("restart_index")
        return None if v is None else self.untime(v)

    def run_trim(self):
        """Last group discarded, head trimmed up to restart index."""
        if self.hist:
            return self.run_hist()
        rng, prof = self.rng, self.prof
        if not self.step_new(True):
            return
        n = len(self.seed)
        ends = [b for _, b in self.parts(n)]
        j = 0
        nfail = ncalls = 0
        # A refused call is done again: what is refused without end is left to specification.
        while j < len(ends) and ncalls < len(ends) + 12:
            ncalls += 1
            r = self.restart()
            rows = self.feeds(ends[j], r)
            chunks = self.chunks_of(rows)
            final = j == len(ends) - 1 or rng.random() < 0.75
            fail, kind, stop = 0, "", None
            if chunks and rng.random() < prof.get("fail", 0) and nfail < 4:
                fail, kind = rng.randint(1, len(chunks)), rng.choice(["check", "check", "order"])
                nfail += 1
            if prof.get("crash") and rng.random() < prof["crash"] and nfail < 4:
                nfail += 1
                stop = rng.choice([["pre", rng.randint(1, 4)], ["post", rng.randint(1, 3)], ["write", rng.randint(1, 5)],
                                   ["write", rng.randint(1, 3)], ["final", rng.randint(1, 2)], ["final", 1], ["abandon", 0]])
            if stop and stop[0] == "abandon":
                final, stop2 = False, None
            else:
                stop2 = stop
            exc = self.step_agg(chunks, True, True, final, fail, kind, stop2)
            if exc.startswith("other"):
                return
            renew = exc == "crash" or (stop and stop[0] == "abandon") or (final and rng.random() < 0.5)
            if renew and not self.step_new():
                return
            if exc == "" and not (stop and stop[0] == "abandon"):
                j += 1

    def run_part_fail(self):
        """Failing checks, all rows being kept: restart from the failing chunk."""
        rng = self.rng
        if self.hist:
            return self.run_hist()
        if rng.random() < 0.5:
            return self.run_trim()
        if not self.step_new(True):
            return
        for a, b in self.parts(len(self.seed)):
            chunks = [c for c in self.chunks_of(self.seed[a:b]) if c]
            for _ in range(4):
                fail, kind = 0, ""
                if rng.random() < 0.6 and chunks:
                    fail, kind = rng.randint(1, len(chunks)), rng.choice(["check", "check", "order"])
                exc = self.step_agg([list(c) for c in chunks], False, False, True, fail, kind)
                if exc.startswith("other"):
                    return
                if rng.random() < 0.5 and not self.step_new():
                    return
                if exc == "":
                    break
                chunks = chunks[self.failed_at - 1:]
            else:
                return


CURRENT = [None]
_set = colmod.ParquetSet.set
_wmd = getattr(agmod, "write_metadata", None)


def set_(self, key, *args, **kwargs):
    c = CURRENT[0]
    if c is not None:
        if c.gates:
            c.gates.at((int(key.name[1:]), "write"))
        c.hit("write")
        if OUPS_METADATA:
            c.hit("final")
    _set(self, key, *args, **kwargs)
    if c is not None and c.gates:
        c.gates.at((int(key.name[1:]), "written"))


def wmd(pf, *args, md_key=None, **kw):
    c = CURRENT[0]
    if c is not None and md_key is not None:
        if c.gates:
            c.gates.at((int(md_key.name[1:]), "metadata"))
        c.hit("write")
        c.hit("final")
    return _wmd(pf, *args, md_key=md_key, **kw)


def main():
    job = json.load(open(sys.argv[1]))
    colmod.ParquetSet.set = set_
    if _wmd is not None:
        agmod.write_metadata = wmd
    traces = []
    for case in watched(job["cases"]):
        for att in range(30):
            c = Case({**case, "seed": case["seed"] + att * 7919} if att else case, job["scratch"])
            if c.in_domain():
                CURRENT[0] = c
                OUPS_METADATA.clear()
                traces.append(c.run())
                CURRENT[0] = None
                break
            shutil.rmtree(c.dir, ignore_errors=True)
            if case.get("hist"):
                break
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

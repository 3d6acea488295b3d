"""
Runs accepted and refused calls of 'cumsegagg' (real code from /repo) and records
them as traces for spec/TraceOupsSegRules.tla.
"""
import json
import random
import sys
from functools import partial

import cloudpickle
import numpy as np
import pandas as pd
from pandas import Grouper

from oups.aggstream import by_x_rows
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.cumsegagg import setup_cumsegagg
from oups.aggstream.segmentby import by_scale
from oups.aggstream.segmentby import setup_segmentby
from drv_seg import T0
from drv_seg import WRONG
from drv_seg import Case
from watch import watched

MIN = pd.Timedelta(minutes=1)


def error(e):
    return f"{type(e).__name__}: {e}"[:300]


def null(v):
    return v is pd.NA or v is None or v is pd.NaT or (isinstance(v, float) and np.isnan(v))


def column(res, name, untime=lambda x: int(x)):
    return [[untime(lab), [] if null(v) else [int(v)]] for lab, v in zip(res.index, res[name])]


def aggregate(rng, df, agg, kw, buffer=None):
    """Settings given as they are, or prepared."""
    kw = dict(kw)
    if rng.random() < 0.4:
        seg = setup_segmentby(kw.pop("bin_by"), kw.pop("bin_on", None), kw.pop("ordered_on", None), kw.get("snap_by"))
        kw["bin_by"] = seg
        if isinstance(kw.get("snap_by"), type(Grouper(freq="T"))):
            kw.pop("snap_by")
    if rng.random() < 0.4:
        agg = setup_cumsegagg(agg, df.dtypes.to_dict())
    return cumsegagg(df, agg, buffer=buffer, **kw)


# ------------------------------------------------------------------ settings
def settings_case(case):
    rng = random.Random(case["seed"])
    steps = []
    for s in case["settings"]:
        n = rng.choice([3, 5, 8])
        ts = sorted(rng.randint(0, 20) for _ in range(n))
        us = list(range(n))
        while us == sorted(us):
            rng.shuffle(us)
        df = pd.DataFrame({"t": [T0 + x * MIN for x in ts], "v": range(1, n + 1), "u": us, "s": ["a"] * n})
        kw = {}
        kw["bin_by"] = {"period": Grouper(freq="5T", closed=s["closed"], key=s["bkey"] or None) if s["binby"] == "period" else None,
                        "callable": partial(by_x_rows, by=2, closed=s["closed"]), "other": rng.choice([4, "5T", pd.Series(ts)])}[s["binby"]]
        for a, b in (("bin_on", "bon"), ("ordered_on", "ord")):
            if s[b]:
                kw[a] = s[b]
        if s["snap"] == "period":
            kw["snap_by"] = Grouper(freq="2T", closed=s["sclosed"], key=s["skey"] or None)
        elif s["snap"] == "list":
            kw["snap_by"] = pd.Series([T0 + x * MIN for x in (4, 9, 30)])
        step = {"op": "set", "s": s, "exc": ""}
        try:
            aggregate(rng, df, {"r": (s["in"], s["fn"])}, kw, rng.choice([None, {}]))
        except Exception as e:
            step["exc"] = error(e)
        steps.append(step)
    return {"id": case["id"], "cfg": {}, "steps": steps}


# ------------------------------------------------------------------ user functions
def fun_case(case):
    rng = random.Random(case["seed"])
    out = []
    for f in case["funs"]:
        now = [None]
        withsnap = rng.random() < 0.4

        def bins(on, buffer=None):
            f = now[0]
            starts = f["starts"]
            labels = pd.Series([T0 + x * MIN for x in f["labs"]]) if stamps else pd.Series(f["labs"])
            if not f["series"]:
                labels = labels.to_numpy()
            t = on.iloc[:, -1] if isinstance(on, pd.DataFrame) else on
            t = t.reset_index(drop=True)
            if f["closed"] == "left":
                ends = [t[min(i, len(t) - 1)] for i in starts]
            else:
                ends = [t[min(i, len(t)) - 1] if i else t[0] - MIN for i in starts]
            ends = pd.Series((ends + ends[-1:])[:f["nend"]])
            nulls = sum(b == a for a, b in zip([0, *starts], starts))
            return np.array(starts, dtype="int64"), labels, nulls, f["closed"], ends, True

        stamps = rng.random() < 0.5
        kw = {"bin_by": bins, "bin_on": rng.choice(["k", "t"]), "ordered_on": "t"}
        if withsnap:
            kw["snap_by"] = rng.choice([Grouper(key="t", freq="3T", closed=rng.choice(["left", "right"])),
                                        pd.Series([T0 + x * MIN for x in (2, 4, 9)])])
        buf = {} if f["chain"] else None
        steps = []
        for g, rows in ((case["first"]["f"], case["first"]["rows"]), (f, case["rows"])) if f["chain"] else ((f, case["rows"]),):
            now[0] = g
            df = pd.DataFrame({"t": [T0 + r[0] * MIN for r in rows], "v": [r[1] for r in rows], "k": 1})
            step = {"op": "fun", "f": g, "rows": rows, "exc": "", "bins": []}
            try:
                res = aggregate(rng, df, {"r": ("v", "sum")}, kw, buf)
                res = res[0] if withsnap else res
                step["bins"] = column(res, "r", (lambda x: int((x - T0) / MIN)) if stamps else int)
                if buf is not None and rng.random() < 0.3:
                    buf = cloudpickle.loads(cloudpickle.dumps(buf))
            except Exception as e:
                step["exc"] = error(e)
            steps.append(step)
        out += steps if f["chain"] else steps
        if f["chain"]:
            return {"id": case["id"], "cfg": {}, "steps": steps}
    return {"id": case["id"], "cfg": {}, "steps": out}


# ------------------------------------------------------------------ lists
def list_case(case):
    rng = random.Random(case["seed"])
    kind = rng.choice(["ts", "int", "float"])
    steps, buf, off = [], {}, 0

    def series(vals):
        if kind == "ts":
            s = pd.Series([T0 + x * MIN for x in vals], dtype="datetime64[ns]")
            return pd.DatetimeIndex(s) if rng.random() < 0.3 else s
        s = pd.Series(vals, dtype="int64" if kind == "int" else "float64")
        return s / 2 if kind == "float" else s

    def untime(x):
        return int((x - T0) / MIN) if kind == "ts" else int(x) if kind == "int" else int(x * 2)

    for c in case["calls"]:
        rows, closed = c["rows"], c["closed"]
        df = pd.DataFrame({"t": pd.Series(series([r[0] for r in rows])), "v": [r[1] for r in rows]})
        df.index = range(off, off + len(df))
        ends = series(c["list"])
        if c["what"] == "points":
            # A single bin.
            whole = partial(by_x_rows, by=10**6, closed=closed)
            kw = {"bin_by": whole, "bin_on": "t", "ordered_on": "t", "snap_by": ends}
        else:
            by = (ends, ends) if rng.random() < 0.4 else ends
            kw = {"bin_by": partial(by_scale, by=by, closed=closed), "ordered_on": "t"}
        step = {"op": "list", **c, "exc": "", "res": []}
        try:
            res = aggregate(rng, df, {"r": ("v", "sum")}, kw, buf)
            step["res"] = column(res[1] if c["what"] == "points" else res, "r", untime)
            if rng.random() < 0.3:
                buf = cloudpickle.loads(cloudpickle.dumps(buf))
        except Exception as e:
            step["exc"] = error(e)
        steps.append(step)
        if not step["exc"]:
            off += len(df)
    return {"id": case["id"], "cfg": {}, "steps": steps}


# ------------------------------------------------------------------ refused calls in a chain
class Refusing(Case):
    def bad_call(self, ch, kw, buf, agg, off):
        rng = self.rng
        why = rng.choice(["disorder", "disorder", "null", "column", "function", "contradiction", "empty", "result", "points", "points"])
        df = self.frame(ch, off)
        kw, agg = dict(kw), dict(self.agg)
        rows = ch
        if why == "empty":
            df = df.iloc[:0]
        elif why == "disorder":
            rows = list(rows)
            if rows[-1][0] == rows[0][0]:
                rows.append([rows[0][0] + 2, *rows[0][1:]])
            i = rng.choice([i for i in range(len(rows) - 1) if rows[i][0] < rows[i + 1][0]])
            rows[i], rows[i + 1] = rows[i + 1], rows[i]
            df = self.frame(rows, off)
        elif why == "null":
            if self.otype == "int" or len(df) < 2:
                return None
            df.loc[df.index[rng.randrange(len(df))], "t"] = None
        elif why == "result":
            bins = kw["bin_by"]
            if not callable(bins):
                return None
            flaw = rng.choice(["series", "closed", "labels", "ends"])

            def wrong(on, buffer=None):
                starts, labels, nulls, closed, ends, unknown = bins(on=on, buffer=buffer)
                if flaw == "series":
                    labels = labels.to_numpy()
                elif flaw == "closed":
                    closed = "both"
                elif flaw == "labels":
                    labels = pd.concat([labels, labels.iloc[-1:]])
                else:
                    ends = ends[:-1]
                return starts, labels, nulls, closed, ends, unknown

            kw["bin_by"] = wrong
        elif why == "points":
            if self.cfg["snap"] != "list" or not self.last:
                return None
            # Last point returned is not in the list.
            pts = [p for p in self.cfg["pts"] if p != self.last[-1]]
            if not pts:
                return None
            kw["snap_by"] = self.times(pts)
        elif why == "column":
            agg["zz"] = ("zz", "first")
        elif why == "function":
            agg["zz"] = ("i", "middle")
        elif why == "contradiction":
            if isinstance(kw["bin_by"], type(Grouper(freq="T"))):
                kw["ordered_on"] = "i"
            else:
                how = rng.choice(["none", "bin_by"])
                if how == "none":
                    kw["bin_on"] = kw["ordered_on"] = None
                    kw.pop("snap_by", None)
                else:
                    kw["bin_by"] = 3
        step = {"op": "empty" if why == "empty" else "refuse", "why": why, "rows": rows, "exc": "", "kept": 1, "none": 0}
        keep = df.copy(deep=True)
        try:
            if why == "contradiction":
                res = cumsegagg(df, agg, buffer=buf, **kw)
            else:
                res = aggregate(rng, df, agg, kw, buf)
            step["none"] = int(res is None)
        except Exception as e:
            step["exc"] = error(e)
        step["kept"] = int(df.equals(keep))
        return step

    def run(self):
        rng = self.rng
        kw, snap_kw = self.settings()
        kw["ordered_on"] = "t"
        kw = {**kw, **snap_kw}
        trace = {"id": self.case["id"], "cfg": self.cfg, "steps": [], "info": {"unit": self.unit, "otype": self.otype}}
        buf, off = {}, 0
        self.last = []
        for ch in self.chunks:
            for _ in range(rng.choice([0, 1, 1, 2])):
                s = self.bad_call(ch, kw, buf, self.agg, off)
                if s is not None:
                    trace["steps"].append(s)
            step = {"op": "chunk", "rows": ch, "bins": [], "snaps": [], "exc": ""}
            try:
                res = aggregate(rng, self.frame(ch, off), self.agg, {**kw, "error_on_0": False}, buf)
                bins, snaps = res if self.cfg["snap"] != "none" else (res, None)
                step["bins"] = self.result(bins)
                step["snaps"] = self.result(snaps) if snaps is not None else []
                self.last += [s[0] for s in step["snaps"]]
            except Exception as e:
                step["exc"] = error(e)
                trace["steps"].append(step)
                break
            trace["steps"].append(step)
            off += len(ch)
            if rng.random() < 0.2:
                buf = cloudpickle.loads(cloudpickle.dumps(buf))
        return trace

    def run_zero(self):
        """Whole data, results being 0 refused."""
        rng = self.rng
        kw, snap_kw = self.settings()
        for r in self.rows:
            if rng.random() < self.prof["zeros"]:
                r[1] = 0
            elif rng.random() < 0.3:
                r[1] = -r[1]
        num = [int(not c.startswith("ts")) for c, _ in self.aggs]
        trace = {"id": self.case["id"], "cfg": self.cfg, "steps": [], "info": {"unit": self.unit, "otype": self.otype}}
        for withsnap in (0, 1):
            if withsnap and self.cfg["snap"] == "none":
                continue
            step = {"op": "zero", "rows": self.rows, "snap": withsnap, "num": num, "exc": ""}
            try:
                cumsegagg(self.frame(self.rows), self.agg, error_on_0=True, **{**kw, **(snap_kw if withsnap else {})})
            except Exception as e:
                step["exc"] = error(e)
            trace["steps"].append(step)
        return trace


def in_domain(c):
    from drv_seg import in_domain as dom
    return dom(c)


def chain_case(case):
    for att in range(20):
        c = Refusing({**case, "seed": case["seed"] + att * 7919})
        if in_domain(c):
            return c.run_zero() if case["fam"] == "zero" else c.run()
    return {"id": case["id"], "cfg": {}, "steps": []}


FAMILIES = {"set": settings_case, "fun": fun_case, "list": list_case, "chain": chain_case, "zero": chain_case}


def main():
    job = json.load(open(sys.argv[1]))
    traces = [FAMILIES[c["fam"]](c) for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

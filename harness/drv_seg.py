"""
Runs aggregations with 'cumsegagg' (real code from /repo) and records them as
traces for spec/TraceOupsSegAgg.tla. Only produces inputs and projects results.
"""
import json
import random
import sys
from functools import partial

import cloudpickle
import numpy as np
import pandas as pd
from pandas import Grouper

from oups.aggstream import by_x_rows
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.cumsegagg import setup_cumsegagg
from oups.aggstream.segmentby import by_scale
from oups.aggstream.segmentby import setup_segmentby
from watch import watched

T0 = pd.Timestamp("2020-03-01")
UNITS = {"s": pd.Timedelta(seconds=1), "min": pd.Timedelta(minutes=1), "h": pd.Timedelta(hours=1)}
PER_DAY = {"s": 86400, "min": 1440, "h": 24}
WRONG = -999999
ORDERS = {"i": [("first", "last", "min", "max", "sum"), ("sum", "max", "first")],
          "f": [("last", "sum", "min", "first", "max"), ("max",)], "ts": [("first", "last", "min", "max")]}
# Null value in column 4 of rows.
NIL = 99999
FNS = ["first", "last", "min", "max", "sum"]


def divisors(n, upto):
    return [d for d in range(1, upto + 1) if n % d == 0]


def gen_case(rng, prof):
    kind = rng.choice(prof["kinds"])
    unit = rng.choice(["s", "min", "min", "h"])
    closed = rng.choice(["left", "right"])
    day = PER_DAY[unit]
    snap = rng.choice(prof["snaps"])
    # Ordering values: number of time units after T0.
    n = rng.choice(prof["n"])
    start = rng.choice([0, 0, 1, 5, day - 3, day, 3 * day - 7, rng.randint(0, 2 * day)])
    if kind == "calendar":
        unit, day = "h", 24
    gaps = rng.choice([[0, 30, 100], [0, 24, 400, 2000], [1, 7, 200]]) if kind == "calendar" else rng.choice([[0, 1], [0, 0, 1, 2], [0, 1, 1, 7], [1, 2, 3], [0, 1, 2, 30], [0, 0, 0, 1], [5, 10], [1]])
    t, ts = start, []
    for _ in range(n):
        ts.append(t)
        t += rng.choice(gaps)
    gkw, skw = {}, {}
    if kind == "period" and rng.random() < prof.get("origin", 0.35):
        f = rng.choice([2, 3, 4, 5, 6, 7, 10, 11, 13])
        how = rng.choice(["offset", "origin", "epoch", "start"])
        if how == "offset":
            f = rng.choice([d for d in divisors(day, 30) if d > 1])
            org = rng.randrange(f)
            gkw = {"offset": org * UNITS[unit]}
        elif how == "origin":
            org = rng.randint(-50, 50)
            gkw = {"origin": T0 + org * UNITS[unit]}
        elif how == "epoch":
            org = -(int((T0 - pd.Timestamp(0)) / UNITS[unit]) % f)
            gkw = {"origin": "epoch"}
        else:
            org = ts[0]
            gkw = {"origin": "start"}
    elif kind == "period":
        odd = rng.random() < prof.get("odd", 0.15)
        f = rng.choice([7, 11, 5 if unit == "h" else 7]) if odd else rng.choice([d for d in divisors(day, 30)])
        org = (start // day) * day if odd else 0
    else:
        f, org = rng.choice([1, 2, 3, 4, 5]), 0
    ends, labs, lead = [], [], 0
    if kind == "edges":
        # Last end after all rows.
        lo, hi = start - 4, ts[-1]
        pool = {hi + rng.choice([1, 2, 9])}
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            pool.add(rng.choice([rng.randint(lo, hi), rng.choice(ts), rng.randint(hi, hi + 12)]))
        ends, lead = sorted(pool), 1
        labs = rng.choice([ends, [x - 1 for x in ends], [lo - 20, *ends[:-1]]])
    elif kind == "calendar":
        kind, closed = "edges", "left"
        gkw = {"freq": rng.choice(["MS", "W-MON", "QS", "W-SUN", "2W-WED", "YS", "BMS"])}
        freq = pd.tseries.frequencies.to_offset(gkw["freq"])
        a, b = (T0 + v * UNITS[unit] for v in (ts[0], ts[-1]))
        edges = pd.date_range(freq.rollback(a.normalize()), b + freq + freq, freq=freq)
        edges = [int((e - T0) / UNITS[unit]) for e in edges]
        ends = edges[1:]
        gkw["label"] = rng.choice(["left", "right"])
        labs = ends if gkw["label"] == "right" else edges[:-1]
    cfg = {"kind": kind, "ends": ends, "labs": labs, "lead": lead, "f": f, "closed": closed, "label": rng.choice(["left", "right"]), "org": org, "snap": snap,
           "g": 1, "slabel": rng.choice(["right", "right", "left"]), "sorg": 0, "pts": []}
    if snap == "period" and rng.random() < prof.get("origin", 0.35):
        cfg["g"], cfg["sorg"] = rng.choice([2, 3, 5, 7]), rng.randint(-20, 20)
        skw = {"origin": T0 + cfg["sorg"] * UNITS[unit]}
        if rng.random() < 0.3:
            cfg["sorg"], skw = ts[0], {"origin": "start"}
    elif snap == "period":
        if rng.random() < 0.15:
            cfg["g"], cfg["sorg"] = rng.choice([7, 5 if unit == "h" else 7]), (start // day) * day
        else:
            cfg["g"] = rng.choice(divisors(day, 12))
    elif snap == "list":
        m = rng.choice([1, 2, 3, 5, 8])
        lo, hi = start - 3, ts[-1] + 6
        pool = set()
        while len(pool) < m:
            pool.add(rng.choice([rng.randint(lo, hi), rng.choice(ts), (rng.randint(lo, hi) // f) * f]))
            if len(pool) >= hi - lo:
                break
        cfg["pts"] = sorted(pool)
    rows = [[x, rng.choice([1, 2, 3, 4, 5, 8, 9, 20]) * rng.choice(prof.get("sign", [1])), rng.randint(1, 60)] for x in ts]
    if kind == "marks":
        m = rng.randint(1, 9)
        for r in rows:
            m = rng.choice([m, m, m + 1, rng.randint(1, 9)])
            r[2] = m
    return cfg, rows, unit, gkw, skw


def by_marks(on, buffer=None, closed="left"):
    """User-defined bins: a new one each time values of first column of 'on' change."""
    marks, ords = on.iloc[:, 0].to_numpy(), on.iloc[:, -1].reset_index(drop=True)
    n = len(ords)
    starts = [i for i in range(n) if not i or marks[i] != marks[i - 1]]
    nexts = [*starts[1:], n]
    labels = ords.iloc[starts].reset_index(drop=True)
    ends = ords.iloc[[min(i, n - 1) if closed == "left" else i - 1 for i in nexts]].reset_index(drop=True)
    nulls = 0
    if buffer:
        if marks[0] == buffer["mark"]:
            labels.iloc[0] = buffer["label"]
        else:
            # Last bin of previous call is over.
            nulls = 1
            nexts = [0, *nexts]
            labels = pd.concat([pd.Series([buffer["label"]]), labels], ignore_index=True)
            ends = pd.concat([pd.Series([ords.iloc[0] if closed == "left" else buffer["end"]]), ends], ignore_index=True)
    if buffer is not None:
        buffer |= {"mark": int(marks[-1]), "label": labels.iloc[-1], "end": ords.iloc[-1]}
    return np.array(nexts, dtype="int64"), labels, nulls, closed, ends, True


class Case:
    def __init__(self, case):
        self.case = case
        self.rng = rng = random.Random(case["seed"])
        self.prof = prof = case["profile"]
        hist = case.get("hist")
        if hist:
            self.cfg, self.unit, self.gkw, self.skw = dict(hist["cfg"]), "min", {}, {}
            if self.cfg["kind"] == "edges":
                self.cfg["lead"] = 1
            self.chunks = [c["rows"] for c in hist["chunks"]]
            self.nps = [c["np"] for c in hist["chunks"]]
            for ch in self.chunks:
                for r in ch:
                    r[2] = r[2] + 1 if self.cfg["kind"] == "marks" else r[1] + 10
        else:
            self.cfg, rows, self.unit, self.gkw, self.skw = gen_case(rng, prof)
            if "domain" in case:
                pass
            cuts = sorted(rng.sample(range(1, len(rows)), min(len(rows) - 1, rng.choice(prof["cuts"])))) if len(rows) > 1 else []
            self.chunks = [rows[a:b] for a, b in zip([0, *cuts], [*cuts, len(rows)])]
            self.nps = None
        self.rows = [r for c in self.chunks for r in c]
        share = rng.choice([0, 0.1, 0.4])
        for r in self.rows:
            r.append(NIL if rng.random() < share else rng.choice([1, 2, 3, 5]))
        cfg = self.cfg
        # Type of ordering column: time needed for periods.
        self.otype = "ts" if cfg["kind"] == "period" or cfg["snap"] == "period" or self.gkw else rng.choice(["ts", "int", "float"])
        # Aggregations: (output name, input column, function). Per type of data,
        # functions come in one of few orders (each order is a compilation).
        cols = {"i": 2, "f": 2, "i2": 3, "ts": 3, "i3": 3, "f2": 3, "ts2": 2, "fn": 4, "tsn": 4}
        per = []
        for group in rng.choice([["i"], ["f"], ["ts"], ["i", "f"], ["f", "ts"], ["i", "ts"], ["i", "f", "ts"], ["i", "f", "ts"]]):
            order = rng.choice(ORDERS[group])
            names = {"i": ["i", "i2", "i3"], "f": ["f", "f2"], "ts": ["ts", "ts2"]}[group]
            rng.shuffle(names)
            seq = [(rng.choice(names), fn) for fn in order]
            # Some functions on other columns.
            for c in names:
                for fn in order:
                    if (c, fn) not in seq and rng.random() < 0.4:
                        seq.append((c, fn))
            # Null values in data.
            c = {"f": "fn", "ts": "tsn"}.get(group)
            if c and rng.random() < 0.5:
                seq += [(c, fn) for fn in order if fn in ("first", "last", "sum")]
            per.append(seq)
        self.aggs = []
        while any(per):
            x = rng.choice([p for p in per if p])
            self.aggs.append(x.pop(0))
        self.agg = {f"{c}_{fn}": (c, fn) for c, fn in self.aggs}
        self.cfg["aggs"] = [[fn, cols[c]] for c, fn in self.aggs]
        self.positive = all(r[1] > 0 for r in self.rows)
        self.distinct = rng.random() < 0.5

    def time(self, v):
        if self.otype == "ts":
            return T0 + v * UNITS[self.unit]
        return int(v) if self.otype == "int" else v / 2

    def untime(self, v):
        try:
            if self.otype == "ts":
                x = (pd.Timestamp(v) - T0) / UNITS[self.unit]
            elif self.otype == "int":
                x = v
            else:
                x = v * 2
            return int(x) if int(x) == x else WRONG
        except Exception:
            return WRONG

    def times(self, vals):
        if self.otype == "ts":
            return pd.Series([self.time(v) for v in vals], dtype="datetime64[ns]")
        return pd.Series([self.time(v) for v in vals], dtype="int64" if self.otype == "int" else "float64")

    def frame(self, rows, offset=0):
        n = len(rows)
        df = pd.DataFrame({
            "t": self.times([r[0] for r in rows]),
            "i": pd.Series([r[1] for r in rows], dtype="int64"),
            "f": pd.Series([r[1] / 4 for r in rows], dtype="float64"),
            "i2": pd.Series([r[2] for r in rows], dtype="int64"),
            "ts": pd.Series([T0 + pd.Timedelta(hours=r[2]) for r in rows], dtype="datetime64[ns]"),
            "i3": pd.Series([r[2] * 7 for r in rows], dtype="int64"),
            "f2": pd.Series([r[2] * 0.5 for r in rows], dtype="float64"),
            "ts2": pd.Series([T0 + pd.Timedelta(days=r[1]) for r in rows], dtype="datetime64[ns]"),
            "fn": pd.Series([np.nan if r[3] == NIL else r[3] / 2 for r in rows], dtype="float64"),
            "tsn": pd.Series([pd.NaT if r[3] == NIL else T0 + pd.Timedelta(hours=r[3]) for r in rows], dtype="datetime64[ns]"),
        })
        df.index = range(offset, offset + n)
        return df

    def value(self, v, col):
        if v is pd.NA or v is pd.NaT or v is None or (isinstance(v, float) and np.isnan(v)):
            return []
        try:
            if col in ("i", "i2"):
                x = v
            elif col == "f":
                x = v * 4
            elif col == "i3":
                x = v / 7
            elif col in ("f2", "fn"):
                x = v * 2
            elif col == "ts2":
                x = (pd.Timestamp(v) - T0) / pd.Timedelta(days=1)
            else:
                x = (pd.Timestamp(v) - T0) / pd.Timedelta(hours=1)
            return [int(x)] if int(x) == x else [WRONG]
        except Exception:
            return [WRONG]

    def result(self, res):
        names = list(self.agg)
        if sorted(res.columns) != sorted(names):
            return [[WRONG, []]]
        if not len(res):
            return []
        cols = [[self.value(v, self.agg[n][0]) for v in res[n]] for n in names]
        return [[self.untime(lab), [c[i] for c in cols]] for i, lab in enumerate(res.index)]

    def settings(self):
        """Aggregation parameters, in one of the possible forms."""
        cfg, rng = self.cfg, self.rng
        u = {"s": "S", "min": "T", "h": "H"}[self.unit]
        kw = {}
        if cfg["kind"] == "period" or cfg["kind"] == "edges" and self.gkw:
            g = dict(freq=f"{cfg['f']}{u}", closed=cfg["closed"], label=cfg["label"]) | self.gkw
            if rng.random() < 0.5:
                kw["bin_by"] = Grouper(key="t", **g)
                if rng.random() < 0.3:
                    kw["bin_on"] = "t"
            else:
                kw["bin_by"], kw["bin_on"] = Grouper(**g), "t"
            if rng.random() < 0.3:
                kw["ordered_on"] = "t"
        elif cfg["kind"] == "edges":
            ends, labs = self.times(cfg["ends"]), self.times(cfg["labs"])
            self.tup = not (cfg["ends"] == cfg["labs"] and rng.random() < 0.7)
            by = (labs, ends) if self.tup else ends
            kw["bin_by"] = partial(by_scale, by=by, closed=cfg["closed"])
            form = rng.choice(["ordered", "bin_on", "both"])
            if form != "bin_on" or cfg["snap"] != "none":
                kw["ordered_on"] = "t"
            if form != "ordered":
                kw["bin_on"] = "t"
        elif cfg["kind"] == "marks":
            kw["bin_by"], kw["bin_on"], kw["ordered_on"] = partial(by_marks, closed=cfg["closed"]), "i2", "t"
        else:
            kw["bin_by"] = partial(by_x_rows, by=cfg["f"], closed=cfg["closed"])
            form = rng.choice(["ordered", "bin_on", "two"])
            if form == "ordered":
                kw["ordered_on"] = "t"
            elif form == "bin_on":
                kw["bin_on"] = "t"
                if cfg["snap"] != "none":
                    kw["ordered_on"] = "t"
            else:
                kw["bin_on"], kw["ordered_on"] = "i", "t"
        snap_kw = {}
        if cfg["snap"] == "period":
            # With user-defined bins, points of observation are closed as bins are.
            closed = cfg["closed"] if isinstance(kw["bin_by"], Grouper) or rng.random() < 0.6 else rng.choice(["left", "right"])
            snap_kw["snap_by"] = Grouper(key="t", freq=f"{cfg['g']}{u}", closed=closed, label=cfg["slabel"], **self.skw)
        elif cfg["snap"] == "list":
            snap_kw["snap_by"] = self.times(cfg["pts"])
            if self.otype == "ts" and rng.random() < 0.4:
                snap_kw["snap_by"] = pd.DatetimeIndex(snap_kw["snap_by"])
        return kw, snap_kw

    def window(self, kw, last, step):
        """Points of observation and bin ends for next call: possibly only part of the lists."""
        cfg, rng = self.cfg, self.rng
        out = dict(kw)
        if cfg["snap"] == "list":
            pts = cfg["pts"]
            n = len(pts)
            if self.nps:
                n = self.nps[len(self.sent)]
            elif self.part:
                passed = len([p for p in pts if (p <= last if cfg["closed"] == "left" else p < last)])
                n = rng.choice([max(len(self.snapped), passed), rng.randint(max(len(self.snapped), passed), n), n])
            step["np"] = n
            a = 0
            if self.part and self.snapped:
                # From the last one returned, or an earlier one.
                a = rng.choice([len(self.snapped) - 1, 0, rng.randint(0, len(self.snapped) - 1)])
            vals = self.times(pts[a:n])
            out["snap_by"] = pd.DatetimeIndex(vals) if isinstance(kw["snap_by"], pd.DatetimeIndex) else vals
        if cfg["kind"] == "edges" and not self.gkw and self.part:
            ends, labs = cfg["ends"], cfg["labs"]
            passed = len([e for e in ends if (e <= last if cfg["closed"] == "left" else e < last)])
            n = rng.choice([passed + 1, rng.randint(passed + 1, len(ends)), len(ends)])
            a = rng.choice([self.edge, 0, rng.randint(0, self.edge)])
            self.edge = passed
            by = (self.times(labs[a:n]), self.times(ends[a:n]))
            out["bin_by"] = partial(by_scale, by=by if self.tup else by[1], closed=cfg["closed"])
        self.sent.append(step["np"])
        return out

    def call(self, df, kw, buffer, agg):
        kw = dict(kw)
        if self.setup:
            seg = setup_segmentby(kw.pop("bin_by"), kw.pop("bin_on", None), kw.pop("ordered_on", None), kw.get("snap_by"))
            kw["bin_by"] = seg
            if isinstance(kw.get("snap_by"), type(Grouper(freq="T"))):
                kw.pop("snap_by")
        # What is given by the caller is not to be changed.
        given = [x for x in [df, kw.get("snap_by")] if isinstance(x, (pd.DataFrame, pd.Series, pd.Index))]
        keep = [x.copy(deep=True) for x in given]
        keep_agg = dict(agg)
        res = cumsegagg(df, agg, buffer=buffer, error_on_0=self.positive, **kw)
        self.kept = int(agg == keep_agg and all(x.equals(y) and (isinstance(x, pd.Index) or x.index.equals(y.index))
                                                for x, y in zip(given, keep)))
        return res

    def run(self):
        rng = self.rng
        kw, snap_kw = self.settings()
        self.setup = rng.random() < 0.4
        trace = {"id": self.case["id"], "cfg": self.cfg, "steps": [], "info": {"unit": self.unit, "otype": self.otype,
                                                                              "agg": self.agg, "setup": self.setup}}
        whole = self.frame(self.rows)
        if rng.random() < 0.5:
            agg = setup_cumsegagg(self.agg, whole.dtypes.to_dict())
        else:
            agg = self.agg
        ops = self.prof["do"]
        for withsnap in (0, 1):
            if withsnap and self.cfg["snap"] == "none" or not ops.get("one"):
                continue
            step = {"op": "one", "rows": self.rows, "snap": withsnap, "bins": [], "snaps": [], "exc": "", "kept": 1}
            try:
                res = self.call(whole.copy(), {**kw, **(snap_kw if withsnap else {})}, None, agg)
                bins, snaps = res if withsnap else (res, None)
                step["kept"] = self.kept
                step["bins"] = self.result(bins)
                step["snaps"] = self.result(snaps) if withsnap else []
            except Exception as e:
                step["exc"] = f"{type(e).__name__}: {e}"[:300]
            trace["steps"].append(step)
        if ops.get("chunk"):
            buf, off = {}, 0
            pick = rng.random() < 0.4
            self.part = rng.random() < 0.5
            self.sent, self.snapped, self.edge = [], set(), 0
            for ch in self.chunks:
                step = {"op": "chunk", "rows": ch, "snap": 0, "bins": [], "snaps": [], "exc": "", "np": 0, "kept": 1}
                try:
                    kws = self.window({**kw, **snap_kw}, ch[-1][0], step)
                    res = self.call(self.frame(ch, off if self.distinct else 0), kws, buf, agg)
                    bins, snaps = res if self.cfg["snap"] != "none" else (res, None)
                    step["kept"] = self.kept
                    step["bins"] = self.result(bins)
                    step["snaps"] = self.result(snaps) if snaps is not None else []
                    self.snapped |= {lab for lab, _ in step["snaps"]}
                    if pick:
                        buf = cloudpickle.loads(cloudpickle.dumps(buf))
                except Exception as e:
                    step["exc"] = f"{type(e).__name__}: {e}"[:300]
                    trace["steps"].append(step)
                    break
                trace["steps"].append(step)
                off += len(ch)
        return trace


def in_domain(c):
    """Domain of C12/C13 for row-count bins (see spec: DistinctLabels, SharpRowBins)."""
    cfg, rows = c.cfg, c.rows
    if cfg["kind"] not in ("rows", "marks"):
        return True
    f = cfg["f"]
    ts = [r[0] for r in rows]
    if cfg["kind"] == "marks":
        starts = [j for j in range(len(rows)) if not j or rows[j][2] != rows[j - 1][2]]
    else:
        starts = list(range(0, len(rows), f))
    labels = [ts[j] for j in starts]
    if c.prof["do"].get("chunk") and len(set(labels)) != len(labels):
        return False
    if cfg["snap"] != "none" and cfg["closed"] == "right":
        return all(ts[j - 1] < ts[j] for j in starts[1:])
    return True


def main():
    job = json.load(open(sys.argv[1]))
    traces = []
    for case in watched(job["cases"]):
        for att in range(20):
            c = Case({**case, "seed": case["seed"] + att * 7919} if att else case)
            if in_domain(c):
                traces.append(c.run())
                break
            if case.get("hist"):
                break
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

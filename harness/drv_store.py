"""
Runs histories of writes on one oups dataset (real code from /repo) and records
them as traces for spec/TraceOupsStore.tla.

usage: drv_store.py JOB.json OUT.json
  JOB: {"cases": [{"id", "seed", "profile": {...}} | {"id", "seed", "hist": [...], "profile": {...}}]}
No judgement is made here: this file only produces writes, and projects what
the code shows on the vocabulary of the specification.
"""
import json
import os
import random
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd
import vaex

from oups import ParquetSet
from oups import toplevel
from watch import watched

T0 = pd.Timestamp("2020-01-01")
WRONG = -999
# Large integers: not exactly represented by a float.
BIG = 2**60


@toplevel
class Key:
    name: str
    cat: str


KEY = Key("ds", "one")


class Schema:
    """Mapping between model rows (o, d, p) and dataframe columns."""

    def __init__(self, otype, dtype, shuffle, rng):
        self.otype, self.dtype = otype, dtype
        self.cols = ["o", "d", "p", "f", "s", "t", "b", "nf", "nt", "ni", "i16"]
        self.shuffle = shuffle
        if shuffle:
            rng.shuffle(self.cols)

    def o(self, v):
        if self.otype == "int":
            return int(v)
        if self.otype == "float":
            return v / 4.0
        return T0 + pd.Timedelta(minutes=v)

    def frame(self, rows):
        o = [r[0] for r in rows]
        p = np.array([r[2] for r in rows], dtype="int64")
        if self.otype == "int":
            oc = np.array(o, dtype="int64")
        elif self.otype == "float":
            oc = np.array(o, dtype="float64") / 4.0
        else:
            oc = pd.Series([T0 + pd.Timedelta(minutes=v) for v in o], dtype="datetime64[ns]").to_numpy()
        d = [r[1] for r in rows]
        if self.dtype == "int":
            dc = np.array(d, dtype="int64")
        elif self.dtype == "null":
            dc = np.array([np.nan if v == 0 else v for v in d], dtype="float64")
        else:
            dc = np.array([f"d{v}" for v in d], dtype=object)
        t = pd.Series([T0 + pd.Timedelta(hours=int(v)) for v in p], dtype="datetime64[ns]")
        nul = p % 3 == 0
        data = {
            "o": oc, "d": dc, "p": p, "f": p * 0.25 + 0.5,
            "s": np.array([f"s{v:06d}" for v in p], dtype=object), "t": t, "b": nul,
            # With null values.
            "nf": np.where(nul, np.nan, p * 0.5), "nt": t.mask(nul), "ni": pd.array(BIG + p, dtype="Int64"),
            "i16": (p % 1000).astype("int16"),
        }
        data["ni"][nul] = pd.NA
        df = pd.DataFrame({c: data[c] for c in self.cols})
        if self.shuffle and len(df):
            # Index is not recorded.
            df.index = range(3, 3 + len(df))
        return df

    def inv(self, v):
        """Model value of an ordering value."""
        try:
            if self.otype == "int":
                return int(v)
            if self.otype == "float":
                x = v * 4.0
            else:
                x = (pd.Timestamp(v) - T0) / pd.Timedelta(minutes=1)
            return int(x) if x == int(x) else WRONG
        except Exception:
            return WRONG

    def rows(self, df):
        """Rows of a dataframe in model form; any inconsistent column makes a row 'wrong'."""
        if df is None or len(df) == 0:
            return []
        out = []
        for o, d, p, f, s, t, b, nf, nt, ni, i16 in zip(*(df[c] for c in ("o", "d", "p", "f", "s", "t", "b", "nf", "nt", "ni", "i16"))):
            try:
                pi = int(p)
                ts = T0 + pd.Timedelta(hours=pi)
                ok = (float(f) == pi * 0.25 + 0.5 and s == f"s{pi:06d}" and i16 == pi % 1000
                      and pd.Timestamp(t) == ts and bool(b) == (pi % 3 == 0))
                if pi % 3 == 0:
                    ok = ok and pd.isna(nf) and pd.isna(nt) and pd.isna(ni)
                else:
                    ok = ok and nf == pi * 0.5 and pd.Timestamp(nt) == ts and int(ni) == BIG + pi
                di = (0 if np.isnan(d) else int(d)) if self.dtype == "null" else int(d) if self.dtype == "int" else int(d[1:])
                out.append([self.inv(o), di, pi if ok else WRONG])
            except Exception:
                out.append([WRONG, WRONG, WRONG])
        return out


def topandas(vdf):
    """To pandas, without conversion of integers to float."""
    df = vdf.to_pandas_df()
    v = vdf.evaluate("ni", array_type="numpy")
    df["ni"] = pd.arrays.IntegerArray(np.ma.getdata(v).astype("int64"), np.ma.getmaskarray(v).copy())
    return df


def observe(base, store, sch, full, kept=None):
    h = store[KEY]
    pdf = h.pdf
    cols = 1 if list(map(str, pdf.columns)) == sch.cols else 0
    pdf = sch.rows(pdf)
    pf = h.pf
    if not full:
        # Row groups: rows of the dataset cut at row group limits.
        rgs, i = [], 0
        for rg in pf.row_groups:
            rgs.append(pdf[i:i + rg.num_rows])
            i += rg.num_rows
        if i != len(pdf):
            rgs.append(pdf[i:])
        return rgs, {"full": 0, "cols": cols}
    rgs = [sch.rows(pf[i].to_pandas()) for i in range(len(pf.row_groups))]
    dirpath = os.path.join(base, KEY.to_path)
    parts, extra = [], 0
    for root, _, files in os.walk(dirpath):
        for name in files:
            if name.startswith("part.") and name.endswith(".parquet") and name[5:-8].isdigit():
                parts.append(int(name[5:-8]))
            elif name not in ("_metadata", "_common_metadata"):
                extra += 1
    mmo, mmp = h.min_max("o"), h.min_max("p")
    # Handle obtained ahead of the writes (other than its 'pf', which is loaded once).
    kept_same = kept is None or (tuple(kept.min_max("o")) == tuple(mmo) and len(kept.vdf) == len(pdf))
    return rgs, {
        "full": 1,
        "pdf": pdf,
        "vdf": sch.rows(topandas(h.vdf)),
        "pf": sch.rows(pf.to_pandas()),
        "kept": sch.rows(kept.pdf) if kept is not None and kept_same else pdf if kept_same else [],
        "re": sch.rows(ParquetSet(base, Key)[KEY].pdf),
        "mmo": [sch.inv(mmo[0]), sch.inv(mmo[1])],
        "mmp": [int(mmp[0]), int(mmp[1])],
        "mms": [int(v[1:]) for v in h.min_max("s")],
        # Minimum and maximum of columns with null values.
        "mmn": [[] if lo is None else [conv(lo), conv(hi)] for conv, (lo, hi) in (
            (lambda v: int(v * 2), h.min_max("nf")), (lambda v: int((pd.Timestamp(v) - T0) / pd.Timedelta(hours=1)), h.min_max("nt")),
            (lambda v: int(v) - BIG, h.min_max("ni")))],
        "parts": sorted(parts),
        "extra": extra,
        "cols": cols,
    }


def gen_write(rng, prof, st):
    """Next write, depending on the observed dataset."""
    rgs, step = st["rgs"], st["step"]
    flat = [r for g in rgs for r in g]
    asc = all(a[0] <= b[0] for a, b in zip(flat, flat[1:]))
    ordm = st["ordm"]
    ordd = (ordm == "always") or (ordm == "mixed" and asc and rng.random() < 0.7)
    mx = st["max"]
    if rng.random() < prof.get("chg_max", 0.1):
        mx = rng.choice(prof["sizes"])
    if not rgs:
        n = rng.choice(prof.get("init_len", [1, 2, 3, 4, 6, 9, 14]))
    else:
        n = rng.choice(prof.get("len", [0, 1, 1, 2, 3, 4, 6, 9]))
    gap = prof.get("gap", 4)
    base, pos = 0, "append"
    if flat:
        lo, hi = min(r[0] for r in flat), max(r[0] for r in flat)
        pos = rng.choice(prof.get("pos", ["append", "append", "tie_end", "inside", "inside", "before", "tie_start", "edge", "gap", "span"]))
        if not ordd:
            pos = rng.choice(["append", "inside", "before"])
    if not flat:
        os_ = [10 + rng.randint(0, gap * max(n, 1)) for _ in range(n)]
    elif pos == "append":
        os_ = [hi + 1 + rng.randint(0, gap * max(n, 1)) for _ in range(n)]
    elif pos == "tie_end":
        os_ = [hi + max(0, rng.randint(-2, gap)) for _ in range(n)]
        if os_:
            os_[0] = hi
    elif pos == "tie_start":
        os_ = [lo - max(0, rng.randint(-2, gap)) for _ in range(n)]
        if os_:
            os_[0] = lo
    elif pos == "before":
        os_ = [lo - 1 - rng.randint(0, gap * max(n, 1)) for _ in range(n)]
    elif pos == "edge":
        g = rng.choice(rgs)
        v = rng.choice([g[0][0], g[-1][0]])
        os_ = [v + rng.choice([0, 0, 1, -1]) for _ in range(n)]
    elif pos == "gap":
        vals = sorted({r[0] for r in flat})
        gaps = [(a, b) for a, b in zip(vals, vals[1:]) if b - a > 1]
        edges = [(x[-1][0], y[0][0]) for x, y in zip(rgs, rgs[1:]) if y[0][0] - x[-1][0] > 1]
        if edges and rng.random() < 0.7:
            gaps = edges
        if gaps:
            a, b = rng.choice(gaps)
            os_ = [rng.randint(a + 1, b - 1) for _ in range(n)]
        else:
            os_ = [hi + 1 for _ in range(n)]
    elif pos == "span":
        i, j = sorted((rng.randrange(len(rgs)), rng.randrange(len(rgs))))
        a = rng.choice([rgs[i][0][0], rgs[i][-1][0], rgs[i][0][0] - 1])
        b = rng.choice([rgs[j][0][0], rgs[j][-1][0], rgs[j][-1][0] + 1])
        a, b = min(a, b), max(a, b)
        os_ = [rng.choice([a, b, rng.randint(a, b)]) for _ in range(n)]
    else:
        os_ = [rng.randint(lo - 1, hi + 1) for _ in range(n)]
    if ordd or rng.random() < 0.3:
        os_.sort()
    dup = st["dup"] if ordd else "none"
    if dup != "none" and rng.random() < prof.get("no_dup", 0.1):
        dup = "none"
    rows = []
    for i, v in enumerate(os_):
        dv = rng.randint(0, 1)
        if st["dup"] == "all":
            p = rng.randint(0, 1)
            if rng.random() < 0.5 and flat:
                same = [r for r in flat if r[0] == v]
                if same:
                    dv, p = rng.choice(same)[1:]
        else:
            p = 1000 * step + i + 1
        rows.append([v, dv, p])
    nirgs = rng.choice(prof.get("nirgs", [-1, -1, 0, 1, 2, 3]))
    return {"data": rows, "max": mx, "ord": ordd, "dup": dup, "nirgs": nirgs}


def lazy(df, sch, rng):
    """Vaex dataframe, possibly a selection out of a larger one."""
    how = rng.choice(["plain", "plain", "filter", "slice"])
    if how == "plain":
        return vaex.from_pandas(df)
    idx = list(range(len(df)))
    if how == "filter":
        # Other rows anywhere.
        for _ in range(rng.choice([1, 2, 4])):
            idx.insert(rng.randint(0, len(idx)), -1)
        big = df.iloc[[max(i, 0) for i in idx]].reset_index(drop=True)
        big.loc[[j for j, i in enumerate(idx) if i < 0], "p"] = -7
        data = vaex.from_pandas(big)
        return data[data.p != -7]
    a, b = rng.randint(0, 2), rng.randint(0, 2)
    big = df.iloc[[0] * a + idx + [0] * b].reset_index(drop=True)
    return vaex.from_pandas(big)[a:a + len(df)]


def do_write(store, sch, w, rng, prof):
    kw = {"max_row_group_size": w["max"]}
    if w["ord"]:
        kw["ordered_on"] = "o"
    if w["dup"] == "o":
        kw["duplicates_on"] = rng.choice(["o", ["o"]])
    elif w["dup"] == "d":
        kw["duplicates_on"] = rng.choice(["d", ["d"]])
    elif w["dup"] == "od":
        kw["duplicates_on"] = rng.choice([["o", "d"], ["d", "o"]])
    elif w["dup"] == "all":
        kw["duplicates_on"] = []
    if w["nirgs"] >= 0:
        kw["max_nirgs"] = w["nirgs"]
    if prof.get("compression") and rng.random() < 0.3:
        kw["compression"] = rng.choice(["SNAPPY", "GZIP", "UNCOMPRESSED"])
    df = sch.frame(w["data"])
    kind = "pandas"
    if len(df) and rng.random() < prof.get("vaex", 0.3):
        kind = "vaex"
        data = lazy(df, sch, rng)
    elif len(df) and rng.random() < 0.2:
        # Index is not recorded: any index will do.
        data = df.set_index(pd.Index(rng.sample(range(1000), len(df))))
    else:
        data = df
    # What is given by the caller is not to be changed.
    keep = data.copy(deep=True) if data is df or kind == "pandas" else data.to_pandas_df()
    keep_kw = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    call = rng.choice(["set", "tuple"])
    if call == "set":
        store.set(KEY, data, **kw)
    else:
        store[KEY] = kw, data
    now = data if kind == "pandas" else data.to_pandas_df()
    same = kw == keep_kw and now.equals(keep) and now.index.equals(keep.index) and now.columns.equals(keep.columns)
    return kind, int(same)


def run_case(case, base_root):
    rng = random.Random(case["seed"])
    prof = case["profile"]
    base = tempfile.mkdtemp(dir=base_root)
    trace = {"id": case["id"], "steps": [], "info": {}}
    try:
        sch = Schema(rng.choice(prof.get("otype", ["int", "float", "ts"])), rng.choice(["int", "str", "null"]),
                     rng.random() < 0.3, rng)
        st = {"rgs": [], "step": 0, "max": rng.choice(prof["sizes"]), "dup": rng.choice(prof["dup"]),
              "ordm": rng.choice(prof["ordm"])}
        trace["info"] = {"otype": sch.otype, "dtype": sch.dtype, "cols": sch.cols}
        store = ParquetSet(base, Key)
        kept = store[KEY]
        hist = case.get("hist")
        n = len(hist) if hist else rng.choice(prof["steps"])
        for i in range(n):
            st["step"] = i + 1
            w = hist[i] if hist else gen_write(rng, prof, st)
            if not st["rgs"] and not w["data"]:
                continue
            step = {"w": w, "exc": "", "post": st["rgs"], "obs": {}, "input": 1}
            try:
                step["kind"], step["input"] = do_write(store, sch, w, rng, prof)
                rgs, obs = observe(base, store, sch, prof.get("full", False), kept)
                step["post"], step["obs"] = rgs, obs
                st["rgs"] = rgs
            except Exception as e:
                step["exc"] = f"{type(e).__name__}: {e}"[:300]
                trace["steps"].append(step)
                break
            trace["steps"].append(step)
            if rng.random() < 0.15:
                # Continue with another instance.
                store = ParquetSet(base, Key)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return trace


def main():
    job = json.load(open(sys.argv[1]))
    root = job["scratch"]
    traces = [run_case(c, root) for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

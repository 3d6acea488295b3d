"""
Records datasets with various column names (real code from /repo), and projects
names read back as traces for spec/TraceOupsColumns.tla.
"""
import json
import os
import random
import shutil
import sys
import tempfile

import pandas as pd
import vaex
from fastparquet import ParquetFile

from oups import conform_cmidx
from oups.store.collection import ParquetHandle
from oups.store.writer import to_midx
from oups.store.writer import write
from watch import watched

TEXTS = ["a", "b", "c", "1", "", "é x", "it's", 'say "x"', "a.b", "a b", "class", "x-y", "back\\slash", "A", "(a", "0.5"]
PLAIN = ["a", "b", "c", "é x", "it's", "(a,b)", "('a'", "(1)", "('a')", "['a', 'b']", "{'a': 1}", "{[]: 1}", "None", "1,x", "a b", "x-y", "-'a'",
         "'a'", "1", "0.5", "f(1, 2)", "a,b"]
OTHERS = {"i": ["1", "2", "10"], "f": ["1.5", "2.25"], "n": ["nan"], "t": ["2020-01-01 00:00:00", "2021-03-01 00:00:00"], "b": ["True"]}
MAKE = {"s": str, "i": int, "f": float, "n": lambda _: None, "t": pd.Timestamp, "b": lambda _: True}


def item(x):
    if isinstance(x, str):
        return [x, "s"]
    if x is None or x is pd.NaT or x != x:
        return ["nan", "n"]
    if isinstance(x, bool):
        return [str(x), "b"]
    if isinstance(x, pd.Timestamp):
        return [str(x), "t"]
    return [str(x), "i" if float(x) == int(x) and "." not in str(x) else "f"]


def project(idx):
    """Index as in the specification."""
    if isinstance(idx, pd.MultiIndex):
        return {"multi": 1, "names": [[item(x) for x in n] for n in idx], "levels": [[] if n is None else [str(n)] for n in idx.names]}
    return {"multi": 0, "names": [[item(n)] for n in idx], "levels": [[] if idx.name is None else [str(idx.name)]]}


def build(cols):
    names = [tuple(MAKE[t](x) for x, t in n) for n in cols["names"]]
    levels = [n[0] if n else None for n in cols["levels"]]
    if cols["multi"]:
        return pd.MultiIndex.from_tuples(names, names=levels)
    return pd.Index([n[0] for n in names], name=levels[0], dtype="object")


class Case:
    def __init__(self, case, scratch):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.dir = tempfile.mkdtemp(prefix="c", dir=scratch)
        self.path = os.path.join(self.dir, "ds")
        self.trace = {"id": case["id"], "steps": [], "info": {}}
        self.row = 0

    # -------------------------------------------------------------- inputs
    def render(self, n):
        """Text of a simple name."""
        if not n["tup"]:
            return n["items"][0][0]
        tup = tuple(MAKE[t](x) for x, t in n["items"])
        out = repr(tup)
        style = self.rng.choice(["", "", "", "nopar", "spaces"])
        if style == "nopar" and len(tup) > 1:
            return out[1:-1]
        if style == "spaces":
            return "( " + out[1:-1] + " )" if len(tup) > 1 else " " + out
        return out

    def values(self, n, rows):
        vals = [[(i + 1) * 1000 + self.row + j for j in range(rows)] for i in range(n)]
        self.row += rows
        return vals

    def simple_names(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 2, 3, 3, 4])):
            if rng.random() < 0.6:
                d = rng.choice([1, 2, 2, 3, 4])
                items = [[rng.choice(TEXTS), "s"] for _ in range(d)]
                if rng.random() < 0.08:
                    items[rng.randrange(d)] = ["1", "i"]
                out.append({"tup": 1, "items": items})
            else:
                out.append({"tup": 0, "items": [[rng.choice(PLAIN), "s"]]})
        return out

    def columns(self, wrong=0.5):
        rng = self.rng
        d = rng.choice([2, 2, 3, 4])
        pool = [[x, "s"] for x in rng.sample(TEXTS, 6)]
        ty = rng.choice(list(OTHERS)) if rng.random() < wrong else None
        names = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            n = [rng.choice(pool) for _ in range(d)]
            if ty and rng.random() < 0.5:
                n[rng.randrange(d)] = [rng.choice(OTHERS[ty]), ty]
            names.append(n)
        if len({json.dumps(n) for n in names}) < len(names) and rng.random() < 0.9:
            return self.columns(wrong)
        levels = [[] if rng.random() < 0.3 * wrong else [rng.choice(["l1", "x", "y", "", "é"])] for _ in range(d)]
        return {"multi": 1, "names": names, "levels": levels}

    def simple(self):
        rng = self.rng
        names = [[[x, "s"]] for x in rng.sample([*dict.fromkeys([*TEXTS, *PLAIN, "('a', 'b')", "('a',)"])], rng.choice([1, 2, 3, 4])) if x]
        names = names or [[["a", "s"]]]
        if rng.random() < 0.1:
            names[0] = [["1", "i"]]
        return {"multi": 0, "names": names, "levels": [rng.choice([[], [], ["zz"]])]}

    # -------------------------------------------------------------- observation
    def observe(self):
        ob = {"ex": 0, "cols": {"multi": 0, "names": [], "levels": []}, "vals": []}
        if not os.path.exists(self.path):
            return ob
        ob["ex"] = 1
        try:
            df = ParquetHandle(self.path).pdf
            ob["cols"] = project(df.columns)
            ob["vals"] = [[int(v) for v in df.iloc[:, i]] for i in range(df.shape[1])]
            other = ParquetFile(self.path)[-1:].to_pandas()
            if project(other.columns) != ob["cols"]:
                ob["cols"]["multi"] = 2
        except Exception as e:
            ob["cols"]["multi"] = 3
            self.trace["info"].setdefault("read", f"{type(e).__name__}: {e}"[:300])
        return ob

    def write_kw(self):
        rng = self.rng
        kw = {}
        if rng.random() < 0.6:
            kw["max_row_group_size"] = rng.choice([1, 2, 3])
            if rng.random() < 0.6:
                kw["max_nirgs"] = rng.choice([0, 1])
        return kw

    # -------------------------------------------------------------- steps
    def create(self, expand, cols=None, ns=None, given=None):
        rng = self.rng
        rows = rng.randint(1, 5)
        kw = self.write_kw()
        kw.pop("max_nirgs", None)
        as_vaex = rng.random() < 0.4
        given_before = given
        if expand:
            idx = pd.Index([self.render(n) for n in ns], dtype="object")
            if len(set(idx)) < len(idx):
                return False
            kw["cmidx_expand"] = True
            if given or rng.random() < 0.3:
                kw["cmidx_levels"] = list(given)
            given_before = list(kw.get("cmidx_levels", []))
        else:
            idx = build(cols)
            if cols["multi"]:
                as_vaex = False
            elif as_vaex:
                if any(t != "s" for n in cols["names"] for _, t in n):
                    as_vaex = False
                else:
                    cols = {**cols, "levels": [[]]}
        vals = self.values(len(idx), rows)
        df = pd.DataFrame(dict(enumerate(vals)))
        df.columns = idx
        before = project(idx)
        step = {"op": "create", "expand": int(expand), "cols": cols or {"multi": 0, "names": [], "levels": []}, "ns": ns or [],
                "given": given_before or [], "vals": vals, "exc": ""}
        data = df
        if as_vaex:
            data = vaex.from_pandas(df)
            if [*data.get_column_names()] != [*idx]:
                return False
        try:
            write(self.path, data, **kw)
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"[:200]
        step["intact"] = int(project(df.columns) == before and list(kw.get("cmidx_levels", [])) == (given_before or [])
                             and df.values.T.tolist() == vals)
        step["obs"] = self.observe()
        self.trace["steps"].append(step)
        return step["exc"] == ""

    def append(self, wrong=False):
        rng = self.rng
        ds = self.observe()["cols"]
        names = [list(n) for n in ds["names"]]
        levels = [list(x) for x in ds["levels"]]
        if rng.random() < 0.4:
            rng.shuffle(names)
        multi = ds["multi"]
        as_vaex = rng.random() < 0.4
        if ds["multi"] and not as_vaex and rng.random() < 0.2:
            levels = [rng.choice([["k"], []]) for _ in levels]
        if wrong:
            how = rng.choice(["one", "more", "less", "kind"])
            if how == "one":
                n = names[rng.randrange(len(names))]
                n[-1] = [n[-1][0] + "_", "s"]
            elif how == "more":
                names.append([*names[0][:-1], [names[0][-1][0] + "__", "s"]])
            elif how == "less" and len(names) > 1:
                names.pop()
            else:
                multi = 1 - multi
                if multi:
                    names = [[*n, ["z", "s"]] for n in names]
                    levels = [["l1"], ["l2"]]
                else:
                    names = [[[n[0][0] + "_" * i, "s"]] for i, n in enumerate(names)]
                    levels = [[]]
        cols = {"multi": multi, "names": names, "levels": levels}
        idx = build(cols)
        rows = rng.randint(1, 4)
        vals = self.values(len(idx), rows)
        # Values for a same name are in the same range along steps.
        kw = self.write_kw()
        if rng.random() < 0.2:
            kw["cmidx_expand"] = True
        df = pd.DataFrame(dict(enumerate(vals)))
        df.columns = idx
        data = df
        if as_vaex:
            flat = df.copy()
            flat.columns = pd.Index([str(x) for x in idx], dtype="object")
            if len(set(flat.columns)) < len(flat.columns):
                return
            data = vaex.from_pandas(flat)
            if [*data.get_column_names()] != [*flat.columns]:
                return
        before = project(idx)
        step = {"op": "append", "cols": cols, "vals": vals, "exc": ""}
        try:
            write(self.path, data, **kw)
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"[:200]
        step["intact"] = int(project(df.columns) == before and df.values.T.tolist() == vals)
        step["obs"] = self.observe()
        self.trace["steps"].append(step)

    def conform(self, cols):
        idx = build(cols)
        df = pd.DataFrame([list(range(len(idx)))])
        df.columns = idx
        other = df.copy()
        step = {"op": "conform", "cols": cols, "exc": "", "got": {"multi": 0, "names": [], "levels": []}}
        before = project(idx)
        try:
            conform_cmidx(df)
            step["got"] = project(df.columns)
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"[:200]
        step["intact"] = int(project(idx) == before and project(other.columns) == before and df.values.tolist() == [list(range(len(idx)))])
        self.trace["steps"].append(step)
        return step["got"] if step["exc"] == "" else None

    def expand(self, ns, given):
        idx = pd.Index([self.render(n) for n in ns], dtype="object")
        giv = list(given)
        step = {"op": "expand", "ns": ns, "given": given, "exc": "", "got": {"multi": 0, "names": [], "levels": []}}
        before = project(idx)
        try:
            step["got"] = project(to_midx(idx, giv if giv or self.rng.random() < 0.5 else None))
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"[:200]
        step["intact"] = int(giv == list(given) and project(idx) == before)
        self.trace["steps"].append(step)

    @staticmethod
    def depth(ns):
        return max(len(n["items"]) if n["tup"] else 1 for n in ns)

    def run(self):
        try:
            self.play()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace

    def play(self):
        rng = self.rng
        h = self.case.get("hist")
        if h:
            cols, ns = h["cols"], h["ns"]
            for s in h["steps"]:
                if s["op"] == "conform":
                    cols = self.conform(cols)
                elif s["op"] == "create":
                    if ns:
                        self.expand(ns, h["given"])
                    self.create(bool(ns), cols if not ns else None, ns, h["given"])
                elif s["op"] == "append":
                    self.append()
            return
        kind = rng.choice(["simple", "multi", "multi", "expand", "expand"])
        if kind == "simple":
            ok = self.create(False, self.simple())
        elif kind == "multi":
            cols = self.columns(rng.choice([0, 0.5, 1]))
            ok = self.create(False, cols)
            if not ok:
                # Once conformed.
                cols = self.conform(cols)
                ok = cols is not None and self.create(False, cols)
            elif rng.random() < 0.3:
                self.conform(cols)
        else:
            ns = self.simple_names()
            given = [rng.choice(["x", "y", "é", "l1"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))][:self.depth(ns)]
            self.expand(ns, given)
            if self.depth(ns) < 2:
                return
            ok = self.create(True, None, ns, given)
        if ok:
            for _ in range(rng.randint(1, 4)):
                self.append(rng.random() < 0.3)


def main():
    job = json.load(open(sys.argv[1]))
    traces = [Case(c, job["scratch"]).run() for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

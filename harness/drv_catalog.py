"""
Runs histories of operations on a store of several datasets (real code from
/repo) and records them as traces for spec/TraceOupsCatalog.tla.

Only produces operations and projects what the store and the disk show on the
vocabulary of the specification. All files are in a scratch directory.
"""
import copy
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile

import pandas as pd
import vaex
from fastparquet import ParquetFile
from fastparquet import write as fp_write

from oups import ParquetSet
from oups import sublevel
from oups import toplevel
from oups.store.writer import OUPS_METADATA
from oups.store.writer import OUPS_METADATA_KEY
from watch import watched


# --------------------------------------------------------------------- schemas
@toplevel
class S1:
    a: str


@toplevel(fields_sep="_")
class S1b:
    a: str
    n: int


@sublevel
class Sub2:
    x: str


@toplevel
class S2:
    a: str
    x: Sub2


@sublevel
class Sub2b:
    n: int
    y: str


@toplevel(fields_sep="+")
class S2b:
    a: str
    b: str
    x: Sub2b


@sublevel
class Sub33:
    n: int


@sublevel
class Sub32:
    x: str
    s: Sub33


@toplevel
class S3:
    a: str
    x: Sub32


@sublevel
class Sub33b:
    m: int
    z: str


@sublevel
class Sub32b:
    n: int
    s: Sub33b


@toplevel(fields_sep="~")
class S3b:
    a: str
    b: int
    s: Sub32b


@toplevel
class Other:
    a: str


# schema: (class, types per level, separator)
SCHEMAS = {
    "S1": (S1, [[str]], "-"),
    "S1b": (S1b, [[str, int]], "_"),
    "S2": (S2, [[str], [str]], "-"),
    "S2b": (S2b, [[str, str], [int, str]], "+"),
    "S3": (S3, [[str], [str], [int]], "-"),
    "S3b": (S3b, [[str, int], [int], [int, str]], "~"),
}
SUBS = {"S1": [], "S1b": [], "S2": [Sub2], "S2b": [Sub2b], "S3": [Sub32, Sub33], "S3b": [Sub32b, Sub33b]}
WORDS = ["a", "ab", "a b", "b", "B", "é", "0", "x1", "part", "a=b", "_x"]
INTS = [0, 1, 2, 10, 7, -1, -10, 123456789]


def make_key(schema, levels):
    cls, subs = SCHEMAS[schema][0], SUBS[schema]
    obj = None
    for c, vals in zip(reversed([cls, *subs]), reversed(levels)):
        obj = c(*vals, obj) if obj is not None else c(*vals)
    return obj


def path_of(schema, levels):
    """Path of a key, as documented: fields joined by separator, one directory per level."""
    sep = SCHEMAS[schema][2]
    return [sep.join(map(str, v)) for v in levels]


def complies(schema, comps):
    """Whether path components comply with the schema (own reading of its documentation)."""
    _, types, sep = SCHEMAS[schema]
    if len(comps) != len(types):
        return False
    for comp, tt in zip(comps, types):
        vals = comp.split(sep)
        if len(vals) != len(tt):
            return False
        for v, t in zip(vals, tt):
            if t is int:
                try:
                    if str(int(v)) != v:
                        return False
                except ValueError:
                    return False
        if len(tt) == 1 and vals[0] == "":
            return False
    return True


def rand_pool(rng, schema, n):
    _, types, sep = SCHEMAS[schema]
    words = [w for w in WORDS if sep not in w]
    ints = [i for i in INTS if sep not in str(i)]
    words = rng.sample(words, 3)
    ints = rng.sample(ints, 3)
    pool = set()
    for _ in range(200):
        lv = []
        for tt in types:
            row = []
            for t in tt:
                if t is int:
                    row.append(rng.choice(ints))
                else:
                    row.append(rng.choice(words + ([""] if len(tt) > 1 else [])))
            lv.append(tuple(row))
        pool.add(tuple(lv))
        if len(pool) == n:
            break
    return sorted(pool)


SHAPES = {1: ("S1", [(("a",),), (("b",),), (("c",),)]),
          2: ("S2", [(("a",), ("x",)), (("a",), ("y",)), (("b",), ("x",))]),
          3: ("S3", [(("a",), ("x",), (1,)), (("a",), ("x",), (2,)), (("a",), ("y",), (1,)), (("b",), ("x",), (1,))])}

# OUPS metadata values.
VALUES = {"z": 0, "f": False, "e": "", "l": [], "n1": 5, "d": {"k": [1, None]}, "ts": pd.Timestamp("2020-01-01"), "s": "txt"}
UVALUES = ["1", "2", "", "é", "{}", "null", "long" * 50]
# Names by which a directory is known as that of a dataset.
LAID = ["part.0.parquet", "x.parquet", "y.parq", "_metadata", "_common_metadata"]
NAMES = ["u", "v", "w", "", "é"]


def rep(v):
    return repr(v)


def tree(base):
    h = {}
    for root, dirs, files in os.walk(base):
        h[root] = ""
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                h[p] = hashlib.md5(fh.read()).hexdigest()
    return h


class Run:
    def __init__(self, case, root):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.prof = case["profile"]
        self.top = tempfile.mkdtemp(dir=root)
        rng = self.rng
        if case.get("hist"):
            self.schema, pool = SHAPES[case["hist"]["shape"]]
        else:
            self.schema = rng.choice(sorted(SCHEMAS))
            pool = rand_pool(rng, self.schema, rng.choice([2, 3, 4, 5]))
        self.pool = pool
        self.cls = SCHEMAS[self.schema][0]
        self.keys = [make_key(self.schema, lv) for lv in pool]
        self.paths = [path_of(self.schema, lv) for lv in pool]
        up = os.path.join(self.top, "up")
        os.makedirs(up)
        # Elements next to base directory.
        with open(os.path.join(up, "sibling.txt"), "w") as f:
            f.write("x")
        os.makedirs(os.path.join(up, "basex", "a"))
        self.up = up
        nested = rng.random() < 0.3
        self.rbase = os.path.join(up, "n1", "base") if nested else os.path.join(up, "base")
        if rng.random() < 0.5:
            os.makedirs(self.rbase)
        elif nested:
            os.makedirs(os.path.dirname(self.rbase))
        self.created = os.path.isdir(self.rbase)
        self.base = self.rbase + ("/" if rng.random() < 0.25 else "")
        self.pend = {}
        self.next_row = 0
        self.foreign = []
        self.laid = set()

    def frame(self, rows, kind="ok"):
        n = len(rows)
        lo = self.rng.choice([0, 50, 100])
        o = sorted(lo + self.rng.randint(0, 60) for _ in range(n))
        df = pd.DataFrame({"o": pd.Series(o, dtype="int64"), "p": pd.Series(rows, dtype="int64"),
                           "s": pd.Series([f"s{r}" for r in rows], dtype="object")})
        return df

    # ------------------------------------------------------------ projection
    def project(self):
        n = len(self.keys)
        st = {"keys": [], "rows": [[] for _ in range(n)], "md": [[] for _ in range(n)], "omd": [[] for _ in range(n)],
              "dirs": [], "files": []}
        keypaths = {tuple(p): i for i, p in enumerate(self.paths)}
        fresh = ParquetSet(self.base, self.cls)
        for root, dirs, files in os.walk(self.rbase):
            rel = os.path.relpath(root, self.rbase)
            comps = [] if rel == "." else rel.split(os.sep)
            if comps:
                st["dirs"].append(comps)
            i = keypaths.get(tuple(comps))
            for f in files:
                if i is not None and i + 1 in self.laid and f in LAID:
                    if i + 1 not in st["keys"]:
                        st["keys"].append(i + 1)
                elif i is not None and (f in ("_metadata", "_common_metadata") or (f.startswith("part.") and f.endswith(".parquet"))):
                    if i + 1 not in st["keys"]:
                        st["keys"].append(i + 1)
                else:
                    st["files"].append(comps + [f])
        st["keys"].sort()
        for k in st["keys"]:
            if k in self.laid:
                # Files of somebody else, not read.
                continue
            h = fresh[self.keys[k - 1]]
            df = h.pdf
            ids = [int(x) if s == f"s{x}" else -2 for x, s in zip(df["p"], df["s"])]
            rows = sorted(set(ids))
            if len(rows) != len(ids):
                rows.append(-1)
            st["rows"][k - 1] = rows
            md = dict(h.metadata)
            omd = h._oups_metadata or {}
            md.pop("pandas", None)
            md.pop(OUPS_METADATA_KEY, None)
            st["md"][k - 1] = [[a, b] for a, b in sorted(md.items())]
            st["omd"][k - 1] = [[a, rep(b)] for a, b in sorted(omd.items())]
        return st, fresh

    def ids(self, keys):
        out = []
        for k in keys:
            out.append(self.keys.index(k) + 1 if k in self.keys else 999)
        return out

    # ------------------------------------------------------------ operations
    def gen(self):
        rng = self.rng
        w = self.prof["ops"]
        op = rng.choice(w)
        k = rng.randrange(len(self.keys)) + 1
        if op == "set":
            rows = [] if rng.random() < self.prof.get("empty", 0.2) else [1] * rng.choice([1, 1, 2, 3, 5])
            return {"op": "set", "k": k, "rows": rows, "md": self.gen_md(), "omd": self.gen_omd()}
        if op == "pend":
            return {"op": "pend", "k": k, "omd": self.gen_omd() or [["i", rep(0), 1]]}
        if op == "bad" or op == "del":
            return {"op": op, "k": k}
        if op == "lay":
            return {"op": op, "k": k, "files": rng.choice([[f] for f in LAID] + [rng.sample(LAID, 2)])}
        if op in ("file", "dir"):
            return {"op": op, "path": None}
        return {"op": op}

    def gen_md(self):
        rng = self.rng
        if rng.random() < 0.3:
            return []
        names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3]))
        return [[n, "", 0] if rng.random() < 0.35 else [n, rng.choice(UVALUES), 1] for n in names]

    def gen_omd(self):
        rng = self.rng
        if rng.random() < 0.4:
            return []
        names = rng.sample(["i", "j", "k"], rng.choice([0, 1, 1, 2]))
        return [[n, "", 0] if rng.random() < 0.35 else [n, rep(VALUES[rng.choice(sorted(VALUES))]), 1] for n in names]

    @staticmethod
    def omd_dict(omd):
        vals = {rep(v): v for v in [*VALUES.values(), "1", "2"]}
        return {n: (vals[v] if has else None) for n, v, has in omd}

    def foreign_path(self, op):
        """A location for a foreign file or directory."""
        rng = self.rng
        depth = len(SCHEMAS[self.schema][1])
        sep = SCHEMAS[self.schema][2]
        dirs = [[]] + [p[:i] for p in self.paths for i in range(1, depth + 1)]
        d = list(rng.choice(dirs))
        if op["op"] == "dir" or rng.random() < 0.6:
            # Directories which do not comply with the schema (or comply, without any dataset).
            for _ in range(rng.choice([1, 1, 2, 3])):
                names = ["note", f"a{sep}b{sep}c{sep}d", f"a{sep}", f"a{sep}007", f"007{sep}a", f"{sep}", "007", "+1", "1_0",
                         " 1", f"a{sep}1", f"1{sep}a", "part.0.parquet", "_metadata"]
                d.append(rng.choice(names))
        # Not in the directory of a dataset (to come), for which names of files would be taken.
        for i in range(depth, len(d)):
            if complies(self.schema, d[:i]) and d[i] in ("part.0.parquet", "_metadata"):
                d[i] = "note"
        if op["op"] == "dir":
            return d
        conforming = complies(self.schema, d)
        names = ["note.txt", "README", "x.csv", "x.parquet.bak", "xparquet", "_metadata.old", "common_metadata", "x.PARQUET",
                 "parquet", "x.parq~", "part.0"]
        if not conforming:
            names += ["x.parquet", "_metadata", "part.0.parquet", "y.parq"] * 2
        return d + [rng.choice(names)]

    def do_bad(self, k, st):
        rng = self.rng
        key = self.keys[k - 1]
        exists = k in st["keys"]
        nonempty = exists and st["rows"][k - 1]
        kinds = ["unk_ord", "tuple_ord", "type_list", "type_none", "type_dict", "key_other", "key_str", "key_none", "container",
                 "kwarg"]
        if nonempty:
            kinds += ["cols_extra", "cols_missing", "cols_renamed", "dup_no_ord", "cols_vaex", "cols_extra", "dup_no_ord"] * 2
        if not exists:
            kinds += ["midx", "midx"]
        kind = rng.choice(kinds)
        df = self.frame([-5, -6])
        kw = {"max_row_group_size": rng.choice([1, 2, 10])}
        if rng.random() < 0.5:
            kw["ordered_on"] = "o"
        if rng.random() < 0.5:
            kw["max_nirgs"] = rng.choice([0, 1, 2])
        if rng.random() < 0.5:
            kw["metadata"] = {"bad": "1", "u": None}
        target, data = key, df
        if kind == "unk_ord":
            kw["ordered_on"] = rng.choice(["zz", "O", ""]) or "zz"
        elif kind == "tuple_ord":
            kw["ordered_on"] = ("o", "x")
        elif kind == "type_list":
            data = [1, 2]
        elif kind == "type_none":
            data = None
        elif kind == "type_dict":
            data = {"o": [1]}
        elif kind == "key_other":
            target = Other("a")
        elif kind == "key_str":
            target = str(key)
        elif kind == "key_none":
            target = None
        elif kind == "container":
            data = (rng.choice([[("max_row_group_size", 1)], "x", None]), df)
        elif kind == "kwarg":
            kw["max_row_group_sizes"] = 1
        elif kind == "cols_extra":
            data = df.assign(zz=1)
        elif kind == "cols_missing":
            data = df.drop(columns=["s"])
            kw.setdefault("ordered_on", "o")
        elif kind == "cols_renamed":
            data = df.rename(columns={"s": "S"})
        elif kind == "cols_vaex":
            data = vaex.from_pandas(df.rename(columns={"s": "S"}))
        elif kind == "dup_no_ord":
            kw.pop("ordered_on", None)
            kw["duplicates_on"] = rng.choice(["o", ["o"], [], ["o", "p"]])
        elif kind == "midx":
            data = df.copy()
            data.columns = pd.MultiIndex.from_tuples([("o", 1), ("p", 2), ("s", 3)], names=["l1", "l2"])
            kw = {"metadata": {"bad": "1"}}
        at_write = kind not in ("type_list", "type_none", "type_dict", "key_other", "key_str", "key_none", "container")
        if at_write and k not in self.pend and rng.random() < 0.5:
            OUPS_METADATA[key] = {"bad": 1, "i": None}
        keep = copy.deepcopy(kw)
        keep_df = data.copy() if isinstance(data, pd.DataFrame) else None
        exc = ""
        try:
            if kind == "container":
                self.store[target] = data
            elif rng.random() < 0.5:
                self.store.set(target, data, **kw)
            else:
                self.store[target] = kw, data
        except Exception as e:
            exc = f"{type(e).__name__}"
        caller = kw == keep and (keep_df is None or (data.columns.equals(keep_df.columns) and data.equals(keep_df)))
        if at_write:
            # What was waiting to be recorded along with rejected data is discarded with it.
            self.pend.pop(k, None)
        return exc, caller, kind

    def do_set(self, op):
        rng = self.rng
        key = self.keys[op["k"] - 1]
        kw = {}
        df = self.frame(op["rows"])
        if rng.random() < 0.7:
            kw["max_row_group_size"] = rng.choice([1, 2, 3, 5, 10])
        if rng.random() < 0.5:
            kw["ordered_on"] = "o"
        if rng.random() < 0.5:
            kw["max_nirgs"] = rng.choice([0, 1, 2])
        md = None
        if op["md"] or rng.random() < 0.3:
            md = {n: (v if has else None) for n, v, has in op["md"]}
            kw["metadata"] = md
        if rng.random() < 0.3:
            kw["compression"] = "UNCOMPRESSED"
        data = df
        if len(df) and rng.random() < 0.25:
            data = vaex.from_pandas(df)
        if op["omd"] and op["k"] not in self.pend:
            OUPS_METADATA[key] = self.omd_dict(op["omd"])
        keep = copy.deepcopy(kw)
        keep_df = df.copy()
        if rng.random() < 0.5:
            self.store.set(key, data, **kw)
        else:
            self.store[key] = kw, data
        self.pend.pop(op["k"], None)
        return kw == keep and df.equals(keep_df) and df.columns.equals(keep_df.columns)

    # ------------------------------------------------------------ run
    def run(self):
        trace = {"id": self.case["id"], "paths": self.paths, "init": {}, "steps": [], "info": {"schema": self.schema}}
        hist = self.case.get("hist")
        ops = list(hist["ops"]) if hist else None
        rng = self.rng
        n = len(ops) if ops else rng.choice(self.prof["steps"])
        # Foreign elements present before opening the store.
        if not ops and rng.random() < 0.4:
            os.makedirs(self.rbase, exist_ok=True)
            self.created = True
            for _ in range(rng.choice([1, 2, 3])):
                self.make_foreign({"op": rng.choice(["file", "dir"]), "path": None})
        self.store = ParquetSet(self.base, self.cls)
        st, _ = self.project()
        trace["init"] = st
        for i in range(n):
            op = dict(ops[i]) if ops else self.gen()
            if ops and op["op"] == "set":
                # Values in histories generated from the specification are plain strings.
                op["omd"] = [[n, rep(v) if has else "", has] for n, v, has in op["omd"]]
            if op["op"] in ("set",) and not op["rows"] and op["k"] not in st["keys"] and rng.random() < 0.7:
                op["rows"] = [1]
            if op["op"] == "set":
                ids = []
                for _ in op["rows"]:
                    self.next_row += 1
                    ids.append(self.next_row)
                op["rows"] = ids
                if op["k"] in self.pend:
                    op["omd"] = self.pend[op["k"]]
            if op.get("k") in self.laid and op["op"] != "del":
                continue
            if op["op"] == "lay" and os.path.lexists(os.path.join(self.rbase, *self.paths[op["k"] - 1])):
                continue
            before = tree(self.rbase) if os.path.isdir(self.rbase) else {}
            out_before = self.outside()
            exc, caller, kind = "", True, ""
            try:
                if op["op"] == "set":
                    caller = self.do_set(op)
                    self.created = True
                elif op["op"] == "pend":
                    self.pend[op["k"]] = op["omd"]
                    OUPS_METADATA[self.keys[op["k"] - 1]] = self.omd_dict(op["omd"])
                elif op["op"] == "bad":
                    exc, caller, kind = self.do_bad(op["k"], st)
                elif op["op"] == "del":
                    OUPS_METADATA.pop(self.keys[op["k"] - 1], None)
                    self.pend.pop(op["k"], None)
                    del self.store[self.keys[op["k"] - 1]]
                    self.laid.discard(op["k"])
                elif op["op"] == "lay":
                    # Dataset laid by somebody else, before opening the store.
                    p = os.path.join(self.rbase, *self.paths[op["k"] - 1])
                    os.makedirs(p)
                    for f in op["files"]:
                        with open(os.path.join(p, f), "w") as h:
                            h.write("laid")
                    self.laid.add(op["k"])
                    self.created = True
                    self.store = ParquetSet(self.base, self.cls)
                elif op["op"] in ("file", "dir"):
                    if not self.make_foreign(op):
                        continue
                elif op["op"] == "reopen":
                    self.store = ParquetSet(self.base, self.cls)
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"[:300]
            step = {"op": op, "post": st, "obs": {}, "kind": kind}
            obs = {"exc": exc, "same": 0, "listed": [], "iterated": [], "len": 0, "members": [], "reopened": [], "outside": 0,
                   "caller": int(caller), "base": 0}
            step["obs"] = obs
            if exc and op["op"] != "bad":
                trace["steps"].append(step)
                break
            try:
                after = tree(self.rbase) if os.path.isdir(self.rbase) else {}
                obs["same"] = int(after == before)
                obs["outside"] = int(self.outside() == out_before)
                obs["listed"] = self.ids(list(self.store.keys))
                obs["iterated"] = self.ids(list(self.store))
                obs["len"] = len(self.store)
                obs["members"] = [j + 1 for j, k in enumerate(self.keys) if k in self.store]
                obs["base"] = int(os.path.isdir(self.rbase) or not self.created)
                st, fresh = self.project()
                obs["reopened"] = self.ids(list(fresh.keys))
                step["post"] = st
            except Exception as e:
                obs["exc"] = f"observation: {type(e).__name__}: {e}"[:300]
                if op["op"] == "bad":
                    obs["same"] = 0
                trace["steps"].append(step)
                break
            trace["steps"].append(step)
        return trace

    def outside(self):
        h = tree(self.up)
        b = self.rbase
        return {p: v for p, v in h.items() if p != b and not p.startswith(b + "/")}

    def make_foreign(self, op):
        if op["path"] is None:
            op["path"] = self.foreign_path(op)
        elif op["path"][-1] == "note" and op["op"] == "file":
            op["path"] = op["path"][:-1] + ["note.parquet" if len(op["path"]) <= len(SCHEMAS[self.schema][1]) else "note.txt"]
        elif op["path"][-1] == "note" and op["op"] == "dir":
            op["path"] = list(op["path"])
        p = os.path.join(self.rbase, *op["path"])
        if os.path.lexists(p):
            return False
        for i in range(1, len(op["path"])):
            if os.path.isfile(os.path.join(self.rbase, *op["path"][:i])):
                return False
        self.created = True
        if op["op"] == "dir":
            os.makedirs(p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if p.endswith("parquet") and self.rng.random() < 0.5:
                fp_write(p, pd.DataFrame({"o": [1]}))
            else:
                with open(p, "w") as f:
                    f.write("note")
        return True


def main():
    job = json.load(open(sys.argv[1]))
    traces = []
    for c in watched(job["cases"]):
        OUPS_METADATA.clear()
        r = Run(c, job["scratch"])
        try:
            traces.append(r.run())
        finally:
            shutil.rmtree(r.top, ignore_errors=True)
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

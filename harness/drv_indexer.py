"""
Builds keys of generated schemas (real code from /repo) and records their
conversions as traces for spec/TraceOupsIndexer.tla.
"""
import copy
import json
import pickle
import random
import sys
import types

import cloudpickle

from oups import sublevel
from oups import toplevel
from watch import watched

TYPES = {"int": int, "str": str}
# Module of the schemas, which has to be importable for keys to be pickled.
SCHEMAS = types.ModuleType("schemas_of_keys")
sys.modules["schemas_of_keys"] = SCHEMAS
COUNT = [0]


def chars(s):
    return list(s)


def build(schema, sep):
    """Class for a schema, with its levels."""
    COUNT[0] += 1
    classes, last = [], None
    for depth in reversed(range(len(schema))):
        ann = {f"f{i}": TYPES[t] for i, t in enumerate(schema[depth])}
        if last is not None:
            ann["sub"] = last
        name = f"L{COUNT[0]}_{depth}"
        cls = type(name, (), {"__annotations__": ann, "__module__": "schemas_of_keys", "__qualname__": name})
        if depth:
            cls = sublevel(cls)
        else:
            cls = toplevel(cls) if sep == "-" and COUNT[0] % 2 else toplevel(fields_sep=sep)(cls)
        setattr(SCHEMAS, name, cls)
        classes.insert(0, cls)
        last = cls
    return classes


def make(classes, levels, named=False):
    obj = None
    for cls, vals in zip(reversed(classes), reversed(levels)):
        if named:
            sub = {} if obj is None else {"sub": obj}
            obj = cls(**sub, **{f"f{i}": v for i, v in enumerate(vals)})
        else:
            obj = cls(*vals) if obj is None else cls(*vals, obj)
    return obj


def fields_of(obj, schema):
    """Values of a key, as sequences of (small) integers."""
    out = []
    for level in schema:
        vals = [getattr(obj, f"f{i}") for i in range(len(level))]
        out += [[v >> 30, v % 2**30] if type(v) is int else [ord(c) for c in v] for v in vals]
        obj = getattr(obj, "sub", None)
    return out


def compare(rng, schema, k1, k2):
    """Two keys compared, and one of them modified."""
    a, b = fields_of(k1, schema), fields_of(k2, schema)
    if rng.random() < 0.5:
        k1, k2 = pickle.loads(pickle.dumps(k1)), type(k2).from_path(k2.to_path)
    obs = {"lt": int(k1 < k2), "le": int(k1 <= k2), "gt": int(k1 > k2), "ge": int(k1 >= k2), "eq": int(k1 == k2), "ne": int(k1 != k2),
           "hash": int(hash(k1) == hash(k2)), "first": int(sorted([k1, k2])[0] == k1), "frozen": 0}
    obj = k1
    while rng.random() < 0.5 and hasattr(obj, "sub"):
        obj = obj.sub
    try:
        setattr(obj, rng.choice(["f0", "new"]), 1)
    except AttributeError:
        obs["frozen"] = int(fields_of(k1, schema) == a)
    return {"op": "cmp", "a": a, "b": b, "obs": obs}


def read(obj, schema):
    """Levels of a key, as recorded in traces."""
    out = []
    if obj is None:
        return []
    for depth, level in enumerate(schema):
        vals = [getattr(obj, f"f{i}") for i in range(len(level))]
        out.append([{"ty": ("int" if type(v) is int else "str" if type(v) is str else "other"), "s": chars(str(v))} for v in vals])
        obj = getattr(obj, "sub", None)
    return out


def run_case(case):
    rng = random.Random(case["seed"])
    schema = [[rng.choice(["str", "int", "str"]) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 2, 2, 3]))]
    sep = rng.choice(["-", "-", "_", "+", " ", "1", "a", "~", "|", ".", "(", "\\", "é", "*", "^", "$"])
    classes = build(schema, sep)
    cls = classes[0]
    trace = {"id": case["id"], "schema": schema, "sep": sep, "steps": [], "info": {}}
    alpha = ["a", "b", "1", "0", "x", "é", " ", "_", "-", "+", "="]
    plain = [c for c in alpha if c != sep]
    texts, keys = [], []

    def value(ty, hostile):
        if hostile and rng.random() < 0.3:
            if rng.random() < 0.5:
                return rng.choice([1.5, True, None, b"a", 1 if ty == "str" else "1", (1,)])
            s = [rng.choice(plain) for _ in range(rng.choice([0, 1, 2]))]
            s.insert(rng.randint(0, len(s)), rng.choice([sep, "/", ".", sep]))
            return "".join(s)
        if ty == "int":
            ok = [v for v in [0, 1, 2, 5, 7, 10, 22, 35, -2, -20, 123456789012, 202] if sep not in str(v)]
            return rng.choice(ok)
        return "".join(rng.choice(plain) for _ in range(rng.choice([0, 1, 1, 2, 3])))

    for _ in range(case["n"]):
        if rng.random() < 0.02:
            trace["steps"].append(flawed(rng))
        if keys and rng.random() < 0.2:
            trace["steps"].append(compare(rng, schema, *[rng.choice(keys) for _ in "ab"]))
            continue
        if texts and rng.random() < 0.35:
            # A text derived from that of a key.
            f = rng.choice(texts)
            kind = rng.choice(["drop", "add", "letter", "empty", "trail"])
            parts = [x for p in f.split("/") for x in p.split(sep)]
            i = rng.randrange(len(parts))
            if kind == "drop":
                parts.pop(i)
            elif kind == "add":
                parts.insert(i, rng.choice(["a", "1", ""]))
            elif kind == "letter":
                parts[i] = parts[i] + "x"
            elif kind == "empty":
                parts[i] = ""
            else:
                parts.append("")
            text = rng.choice([sep, "/"]).join(parts)
            try:
                res = read((cls.from_path if rng.random() < 0.5 else cls.from_str)(text), schema)
            except Exception as e:
                res = [[{"ty": "other", "s": chars(type(e).__name__)}]]
            trace["steps"].append({"op": "parse", "text": chars(text), "res": res})
            continue
        hostile = rng.random() < 0.4
        levels = [[value(t, hostile) for t in level] for level in schema]
        key = [[{"ty": ("int" if type(v) is int else "str" if type(v) is str else "other"), "s": chars(str(v))} for v in lv] for lv in levels]
        obs = {"ok": 0, "path": [], "str": [], "path_back": [], "str_back": [], "pickled": [], "same": 0, "depth": 0}
        try:
            k = make(classes, levels, rng.random() < 0.3)
            obs["ok"] = 1
        except (TypeError, ValueError):
            k = None
        if k is not None:
            keys.append(k)
            try:
                path, string = k.to_path, str(k)
                b1, b2 = cls.from_path(path), cls.from_str(string)
                b3 = pickle.loads(pickle.dumps(k)) if rng.random() < 0.5 else cloudpickle.loads(cloudpickle.dumps(k))
                obs.update(path=chars(path), str=chars(string), path_back=read(b1, schema), str_back=read(b2, schema),
                           pickled=read(b3, schema), depth=k.depth if cls.depth == k.depth else 0,
                           same=int(k == b1 and k == b2 and k == b3 and len({k, b1, b2, b3}) == 1 and not k < b1))
                texts += [path, string]
            except Exception as e:
                trace["info"]["exc"] = f"{type(e).__name__}: {e}"
        trace["steps"].append({"op": "make", "key": key, "obs": obs})
    return trace


def flawed(rng):
    """A key of which a nested level is not in last position of its level, or is alone in it."""
    where = rng.choice(["alone", "first", "middle"])
    deep = rng.random() < 0.5
    inner = sublevel(type("Inner", (), {"__annotations__": {"x": str}}))
    ann = {"alone": {"sub": inner}, "first": {"sub": inner, "f0": str}, "middle": {"f0": int, "sub": inner, "f1": str}}[where]
    vals = {"alone": [inner("a")], "first": [inner("a"), "b"], "middle": [1, inner("a"), "b"]}[where]
    try:
        mid = type("Mid", (), {"__annotations__": ann})
        if deep:
            mid = sublevel(mid)
            top = toplevel(type("Top", (), {"__annotations__": {"f0": str, "sub": mid}}))
            vals = ["c", mid(*vals)]
        else:
            top = toplevel(mid)
        top(*vals)
        ok = 1
    except (TypeError, ValueError):
        ok = 0
    return {"op": "schema", "where": where, "deep": int(deep), "obs": {"ok": ok}}


def main():
    job = json.load(open(sys.argv[1]))
    traces = [run_case(c) for c in watched(job["cases"])]
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


if __name__ == "__main__":
    main()

"""C06 to C09: histories on a store of several datasets (spec OupsCatalog)."""
import json

PROFILES = {
    "C06": dict(ops=["set"] * 10 + ["pend", "pend", "bad", "del", "reopen"], empty=0.25, steps=[6, 8, 10]),
    "C07": dict(ops=["set"] * 5 + ["bad"] * 7 + ["del"], empty=0.35, steps=[6, 8, 10]),
    "C08": dict(ops=["set"] * 4 + ["del"] * 2 + ["file", "dir", "file", "reopen", "bad", "lay"], empty=0.1, steps=[8, 10, 12]),
    "C09": dict(ops=["set"] * 5 + ["del"] * 4 + ["file", "dir", "lay"], empty=0.1, steps=[8, 10, 12]),
}
SHAPE = {"C06": 1, "C07": 2, "C08": 3, "C09": 2}


def run(ctx):
    q = ctx.quick
    prof = PROFILES[ctx.prop]
    shapes = [SHAPE[ctx.prop]] if q else [1, 2, 3]
    mcs = [ctx.start_tlc("MCOupsCatalog.tla", f"MCOupsCatalog_{'quick' if q else 'thorough'}{s}.cfg", workers=2 if q else 4,
                         heap="3g" if q else "10g") for s in shapes]
    n = 130 if q else 3000
    drv = ctx.start_driver("drv_catalog.py", [{"id": f"r{i}", "seed": ctx.rng_seed("case", i), "profile": prof} for i in range(n)],
                           nproc=5)
    gcases = []
    for s in (1, 2, 3):
        gen = ctx.generate("MCOupsCatalog.tla", f"MCOupsCatalog_gen{s}.cfg", num=40 if q else 1000, depth=25)
        gen = list({json.dumps(h): h for h in gen}.values())[:12 if q else 500]
        gcases += [{"id": f"g{s}_{i}", "seed": ctx.rng_seed("gen", s, i), "profile": prof, "hist": h} for i, h in enumerate(gen)]
    drv2 = ctx.start_driver("drv_catalog.py", gcases, nproc=2)
    traces = ctx.end_driver(drv, 600 if q else 7200) + ctx.end_driver(drv2, 600 if q else 7200)
    for mc in mcs:
        ctx.model_check_end(mc, 600 if q else 7200)
    ctx.extra["histories_generated_by_tlc"] = len(gcases)
    kinds = {}
    for t in traces:
        for s in t["steps"]:
            kinds[s["op"]["op"]] = kinds.get(s["op"]["op"], 0) + 1
            if s["kind"]:
                kinds["bad:" + s["kind"]] = kinds.get("bad:" + s["kind"], 0) + 1
    ctx.extra["operations"] = kinds
    ctx.validate("TraceOupsCatalog.tla", traces)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "info": t["info"], "paths": t["paths"], "ops": [s["op"] for s in t["steps"]]})
    ctx.assumptions += [
        "operations are sequential, a single process works on the store",
        "a dataset laid by somebody else is only listed and deleted, neither read nor written to",
        "user metadata names differ from those reserved by pandas and oups",
    ]
    return ctx.finish()

"""C10: keys, paths and strings (spec OupsIndexer)."""


def run(ctx):
    q = ctx.quick
    mc = ctx.start_tlc("MCOupsIndexer.tla", f"MCOupsIndexer_{'quick' if q else 'thorough'}.cfg", workers=2)
    n = 800 if q else 20000
    cases = [{"id": f"r{i}", "seed": ctx.rng_seed("case", i), "n": 25} for i in range(n)]
    traces = ctx.drive("drv_indexer.py", cases, 600 if q else 7200)
    ctx.model_check_end(mc, 600)
    ctx.validate("TraceOupsIndexer.tla", traces, batch=1000)
    acc = [s["obs"]["ok"] for t in traces for s in t["steps"] if s["op"] == "make"]
    ctx.extra["keys"] = {"accepted": sum(acc), "refused": len(acc) - sum(acc),
                         "texts": sum(s["op"] == "parse" for t in traces for s in t["steps"])}
    for t in traces[:2]:
        ctx.sample({**t, "steps": t["steps"][:4]})
    ctx.assumptions += ["fields separator is a single character other than '/'", "nested levels are of the declared classes"]
    return ctx.finish()

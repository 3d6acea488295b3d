"""C22: column names (spec OupsColumns)."""
import random


def run(ctx):
    q = ctx.quick
    mc = ctx.start_tlc("MCOupsColumns.tla", f"MCOupsColumns_{'quick' if q else 'thorough'}.cfg", workers=3)
    r = ctx.end_tlc(ctx.start_tlc("MCOupsColumns.tla", "MCOupsColumns_gen.cfg", workers=1), 300)
    gen = ctx.parse_tagged(r["out"], "HIST")
    ctx.extra["histories_enumerated_by_tlc"] = len(gen)
    random.Random(ctx.rng_seed("pick")).shuffle(gen)
    gen = gen[:500 if q else 8000]
    cases = [{"id": f"g{i}", "seed": ctx.rng_seed("g", i), "hist": h} for i, h in enumerate(gen)]
    cases += [{"id": f"r{i}", "seed": ctx.rng_seed("r", i)} for i in range(600 if q else 10000)]
    traces = ctx.drive("drv_columns.py", cases, 700 if q else 5000)
    ctx.model_check_end(mc, 300 if q else 1200)
    stat = {}
    for t in traces:
        for s in t["steps"]:
            k = s["op"] + (" refused" if s["exc"] else "")
            stat[k] = stat.get(k, 0) + 1
    ctx.extra["outcomes"] = stat
    ctx.validate("TraceOupsColumns.tla", [t for t in traces if t["steps"]], batch=1500)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "steps": t["steps"][:3]})
    ctx.assumptions += ["multi-index of at least 2 levels (fastparquet does not restore a single level)",
                        "vaex data: names which vaex itself keeps as they are", "as many level names as levels, at most, are provided"]
    return ctx.finish()

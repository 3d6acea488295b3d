"""C23: refused calls of segmented aggregation (spec OupsSegRules)."""
import random

KINDS = ["period", "period", "rows", "marks", "edges", "calendar"]
CHAIN = dict(kinds=KINDS, snaps=["none", "period", "list"], n=[2, 3, 5, 8, 13], sign=[1, 1, -1], cuts=[1, 2, 3, 5], do={"chunk": 1})
ZERO = dict(kinds=KINDS, snaps=["none", "period", "list"], n=[1, 2, 3, 5, 8], sign=[1, 1, -1], cuts=[1], do={"one": 1})


def run(ctx):
    q = ctx.quick
    rng = random.Random(ctx.rng_seed("plan"))
    mc = ctx.start_tlc("MCOupsSegRules.tla", f"MCOupsSegRules_{'quick' if q else 'thorough'}.cfg", workers=2)
    cases = [{"id": f"c{i}", "fam": "chain", "seed": ctx.rng_seed("chain", i), "profile": CHAIN} for i in range(250 if q else 6000)]
    cases += [{"id": f"z{i}", "fam": "zero", "seed": ctx.rng_seed("zero", i), "profile": {**ZERO, "zeros": rng.choice([0, 0, 0.1, 0.5])}}
              for i in range(120 if q else 3000)]
    drv = ctx.start_driver("drv_rules.py", cases, nproc=4)
    seed = ctx.rng_seed("sim") % 2**31
    r = ctx.end_tlc(ctx.start_tlc("MCOupsSegRules.tla", "MCOupsSegRules_gen.cfg", workers=1,
                                  args=("-simulate", f"num={500 if q else 8000}", "-depth", "6", "-seed", str(seed))), 600)
    hists = ctx.parse_tagged(r["out"], "HIST")
    settings = ctx.parse_tagged(r["out"], "SETTINGS")[0]
    funs = ctx.parse_tagged(r["out"], "FUNS")[0]
    first = ctx.parse_tagged(r["out"], "FIRST")[0]
    rows = ctx.parse_tagged(r["out"], "FUNROWS")[0]
    ctx.extra["enumerated_by_tlc"] = {"settings": len(settings), "results_of_user_functions": len(funs), "histories_of_lists": len(hists)}
    rng.shuffle(settings)
    rng.shuffle(funs)
    rep = 1 if q else 4
    more = []
    for k in range(rep):
        more += [{"id": f"s{k}_{i}", "fam": "set", "seed": ctx.rng_seed("s", i, k), "settings": settings[i:i + 20]} for i in range(0, len(settings), 20)]
        more += [{"id": f"f{k}_{i}", "fam": "fun", "seed": ctx.rng_seed("f", i, k), "funs": [f], "first": first, "rows": rows} for i, f in enumerate(funs)]
    more += [{"id": f"l{i}", "fam": "list", "seed": ctx.rng_seed("l", i), "calls": h} for i, h in enumerate(hists)]
    traces = ctx.end_driver(drv, 600 if q else 5000) + ctx.drive("drv_rules.py", more, 600 if q else 5000)
    ctx.model_check_end(mc, 600 if q else 5000)
    stat = {}
    for t in traces:
        for s in t["steps"]:
            k = s["op"] + " " + s.get("why", "") + (" refused" if s["exc"] else " accepted")
            stat[k] = stat.get(k, 0) + 1
    ctx.extra["outcomes"] = stat
    ctx.validate("TraceOupsSegRules.tla", traces, batch=1000)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "steps": t["steps"][:6]})
    ctx.assumptions += [
        "inconsistent results of a user function: those checked by the library; the others (rows in disorder of bins, wrong count of empty bins) are not detected",
    ]
    return ctx.finish()

"""C11 to C13: segmented aggregation (spec OupsSegAgg)."""
import json

PROFILES = {
    "C11": dict(kinds=["period", "period", "period", "rows", "rows", "marks", "edges", "calendar"], snaps=["none"], n=[1, 2, 3, 5, 8, 13, 20], sign=[1, 1, -1], cuts=[1], odd=0.2,
                do={"one": 1}),
    "C12": dict(kinds=["period", "period", "period", "rows", "rows", "marks", "edges", "calendar"], snaps=["period", "list"], n=[1, 2, 3, 5, 8, 13, 20], sign=[1, 1, -1], cuts=[1],
                do={"one": 1}),
    "C13": dict(kinds=["period", "period", "period", "rows", "rows", "marks", "edges", "calendar"], snaps=["none", "period", "list"], n=[2, 3, 5, 8, 13, 20], sign=[1, 1, -1],
                cuts=[1, 2, 3, 5, 8], do={"chunk": 1}),
}
N_QUICK = {"C11": 2000, "C12": 1200, "C13": 560}


def run(ctx):
    q = ctx.quick
    prof = PROFILES[ctx.prop]
    mc = ctx.start_tlc("MCOupsSegAgg.tla", f"MCOupsSegAgg_{'quick' if q else 'thorough'}.cfg", workers=2 if q else 4,
                       heap="3g" if q else "10g")
    n = N_QUICK[ctx.prop] if q else 30000
    drv = ctx.start_driver("drv_seg.py", [{"id": f"r{i}", "seed": ctx.rng_seed("case", i), "profile": prof} for i in range(n)], nproc=5)
    gen = ctx.generate("MCOupsSegAgg.tla", "MCOupsSegAgg_gen.cfg", num=300 if q else 5000, depth=14)
    gen = list({json.dumps(h): h for h in gen}.values())
    gen = [h for h in gen if (h["cfg"]["snap"] == "none") in [s == "none" for s in prof["snaps"]]][:150 if q else 4000]
    gcases = [{"id": f"g{i}", "seed": ctx.rng_seed("gen", i), "profile": prof, "hist": h} for i, h in enumerate(gen)]
    drv2 = ctx.start_driver("drv_seg.py", gcases, nproc=2)
    traces = ctx.end_driver(drv, 600 if q else 7200) + ctx.end_driver(drv2, 600 if q else 7200)
    ctx.model_check_end(mc, 600 if q else 7200)
    ctx.extra["histories_generated_by_tlc"] = len([t for t in traces if t["id"].startswith("g")])
    ctx.validate("TraceOupsSegAgg.tla", traces, batch=1000)
    for t in traces[:1] + traces[-1:]:
        ctx.sample(t)
    ctx.assumptions += [
        "values are integers, exact binary fractions or timestamps (no rounding in sums), no null in aggregated columns",
        "row-count bins: labels of chained bins are distinct; right-closed with snapshots: no ordering value on both sides of a bin end",
        "periods are whole numbers of seconds, minutes or hours",
    ]
    return ctx.finish()

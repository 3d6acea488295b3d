"""C01 to C05: histories of writes on one dataset (spec OupsStore)."""
import json

SIZES = [1, 2, 3, 4, 5, 7, 10, 12]
PROFILES = {
    "C01": dict(sizes=SIZES, dup=["none", "none", "none", "o", "d", "od", "all"], ordm=["always", "always", "mixed", "never"],
                steps=[3, 4, 5, 6]),
    "C02": dict(sizes=SIZES, dup=["none", "none", "none", "d"], ordm=["always"], steps=[3, 4, 5, 6],
                pos=["append", "tie_end", "tie_end", "inside", "before", "before", "tie_start", "edge", "edge", "gap", "gap", "span"]),
    "C03": dict(sizes=SIZES, dup=["o", "d", "d", "od", "all", "all"], ordm=["always"], steps=[3, 4, 5],
                gap=2, pos=["append", "tie_end", "inside", "inside", "edge", "tie_start", "span", "span"], no_dup=0.2),
    "C04": dict(sizes=[1, 2, 3, 4, 5, 7, 10, 10, 11, 20], dup=["none", "none", "d"], ordm=["always", "never", "always"], steps=[4, 5, 6, 7],
                nirgs=[-1, 0, 1, 2, 3, 4], chg_max=0.25),
    "C05": dict(sizes=[1, 1, 2, 3, 10], dup=["none", "none", "d"], ordm=["always", "always", "never"], steps=[3, 4, 5],
                init_len=[1, 4, 9, 14, 22], full=True, chg_max=0.3),
}
N_QUICK = {"C01": 320, "C02": 330, "C03": 330, "C04": 300, "C05": 200}
N_GEN = 60


def cases(ctx, n):
    prof = PROFILES[ctx.prop]
    return [{"id": f"r{i}", "seed": ctx.rng_seed("case", i), "profile": prof} for i in range(n)]


def run(ctx):
    q = ctx.quick
    prof = PROFILES[ctx.prop]
    mc = ctx.start_tlc("MCOupsStore.tla", f"MCOupsStore_{'quick' if q else 'thorough'}.cfg", workers=2 if q else 4,
                       heap="3g" if q else "8g")
    drv = ctx.start_driver("drv_store.py", cases(ctx, N_QUICK[ctx.prop] if q else 6000), nproc=5)
    # Histories generated by TLC from the specification.
    gen = ctx.generate("MCOupsStore.tla", "MCOupsStore_gen.cfg", num=300 if q else 8000, depth=8)
    # Those in the scope of the profile, without repetition.
    gen = [h for h in {json.dumps(h): h for h in gen}.values()
           if any(w["dup"] in prof["dup"] for w in h) and (prof["ordm"] != ["always"] or all(w["ord"] for w in h))]
    gen = gen[:N_GEN if q else 1500]
    gcases = [{"id": f"g{i}", "seed": ctx.rng_seed("gen", i), "profile": prof, "hist": h} for i, h in enumerate(gen)]
    drv2 = ctx.start_driver("drv_store.py", gcases, nproc=2)
    traces = ctx.end_driver(drv, 600 if q else 7200) + ctx.end_driver(drv2, 600 if q else 7200)
    ctx.model_check_end(mc, 600 if q else 7200)
    ctx.extra["histories_generated_by_tlc"] = len(gcases)
    ctx.validate("TraceOupsStore.tla", traces)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "info": t["info"], "steps": [{k: v for k, v in s.items() if k != "obs"} for s in t["steps"]]})
    ctx.assumptions += [
        "histories are sequential: a single writer at a time on a dataset",
        "columns of types int64, float64, datetime64[ns], str, bool; ordering column int64, float64 or datetime64[ns] without null",
        "ordered writes are given ascending rows, on datasets ascending so far (contract of the ordering parameter)",
        "the payload of a row is checked through 4 columns derived from its identity",
    ]
    return ctx.finish()

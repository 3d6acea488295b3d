"""C14 to C20: streamed aggregation (spec OupsAggStream)."""
import json
import random

N = [2, 3, 4, 6, 8, 10, 14, 20]
BASE = dict(n=N, nkeys=[1, 1, 2], snaps=["none", "none", "period", "period"], post=["none"], mem=[None, None, 0, 0.0004],
            cuts=[0, 1, 2, 3, 5], calls=[1, 2, 3, 4], parallel=0.3)
PROFILES = {
    "C14": {**BASE, "do": "plain", "filters": 0.25, "nkeys": [1, 1, 2, 3], "late": 0.3},
    "C15": {**BASE, "do": "trim", "calls": [2, 3, 4, 5], "late": 0.25},
    "C16": {**BASE, "do": "plain", "filters": 1, "nkeys": [2, 3, 3, 4], "calls": [1, 2, 3], "late": 0.2},
    "C17": {**BASE, "do": "part_fail", "fail": 0.5, "filters": 0.2},
    "C18": {**BASE, "do": "trim", "post": ["keep", "keep", "select", "warm"], "mem": [0, 0, 0.0002, 0.0005, 0.001, None], "cuts": [2, 3, 5, 8],
            "fail": 0.1, "late": 0.2},
    "C19": {**BASE, "do": "trim", "post": ["none", "keep", "keep"], "mem": [0, 0, 0.0005, None], "nkeys": [1], "crash": 0.5,
            "cuts": [1, 2, 3, 5], "calls": [2, 3, 4]},
    "C20": {**BASE, "do": "plain", "nkeys": [2, 3, 4], "parallel": 1, "post": ["keep", "keep", "none"], "gates": True, "filters": 0.3,
            "n": [3, 4, 6, 8, 12], "cuts": [0, 1, 2], "calls": [1, 2, 3], "late": 0.2},
}
N_QUICK = {"C14": 180, "C15": 150, "C16": 130, "C17": 130, "C18": 140, "C19": 130, "C20": 60}


def aggs(h):
    return [s for s in h["steps"] if s["op"] == "agg"]


# Histories generated by TLC which are in the scope of a property.
SCOPE = {
    "C14": lambda h: not any(s["trim"] or s["fail"] or s["crash"] for s in aggs(h)),
    "C15": lambda h: all(s["trim"] and not s["fail"] and not s["crash"] for s in aggs(h)),
    "C16": lambda h: any(k["filt"] for k in h["keys"]) and not any(s["fail"] or s["crash"] for s in aggs(h)),
    "C17": lambda h: any(s["fail"] for s in aggs(h)) and not any(s["crash"] for s in aggs(h)),
    "C18": lambda h: not any(s["fail"] or s["crash"] for s in aggs(h)),
    "C19": lambda h: any(s["crash"] for s in aggs(h)),
    "C20": lambda h: len(h["keys"]) > 1 and not any(s["fail"] or s["crash"] for s in aggs(h)),
}


def longest(gen):
    """Without those which are the beginning of another."""
    out, texts = [], set()
    for h in sorted(gen, key=lambda h: -len(h["steps"])):
        if json.dumps(h) in texts:
            continue
        out.append(h)
        for n in range(1, len(h["steps"]) + 1):
            texts.add(json.dumps({**h, "steps": h["steps"][:n]}))
    return out


def run(ctx):
    q = ctx.quick
    prof = PROFILES[ctx.prop]
    n = N_QUICK[ctx.prop] if q else 20 * N_QUICK[ctx.prop]
    cases = [{"id": f"r{i}", "seed": ctx.rng_seed("case", i), "prop": ctx.prop, "profile": prof} for i in range(n)]
    mc = ctx.start_tlc("MCOupsAggStream.tla", f"MCOupsAggStream_{'quick' if q else 'thorough'}.cfg", workers=2 if q else 4,
                       heap="3g" if q else "10g")
    drv = ctx.start_driver("drv_agg.py", cases, nproc=5)
    gen = ctx.generate("MCOupsAggStream.tla", "MCOupsAggStream_gen.cfg", num=500 if q else 8000, depth=60)
    gen = longest([h for h in gen if SCOPE[ctx.prop](h)])
    random.Random(ctx.rng_seed("pick")).shuffle(gen)
    gcases = [{"id": f"g{i}", "seed": ctx.rng_seed("gen", i), "prop": ctx.prop, "profile": prof, "hist": h}
              for i, h in enumerate(gen[:50 if q else 1500])]
    drv2 = ctx.start_driver("drv_agg.py", gcases, nproc=2)
    traces = ctx.end_driver(drv, 700 if q else 7200) + ctx.end_driver(drv2, 700 if q else 7200)
    ctx.model_check_end(mc, 600 if q else 7200)
    ctx.extra["histories_generated_by_tlc"] = len(gcases)
    stat = {"calls": 0, "stopped": 0, "check_failed": 0, "order_failed": 0, "restarts": 0, "restarts_refused": 0, "post_calls": 0,
            "not_final": 0, "keys": 0, "with_parallel": 0, "schedules": 0}
    for t in traces:
        stat["keys"] += len(t["keys"])
        stat["with_parallel"] += t["info"]["parallel"]
        stat["schedules"] += len(t["info"].get("schedules", []))
        for s in t["steps"]:
            if s["op"] == "new":
                stat["restarts"] += 1
                stat["restarts_refused"] += s["exc"] != ""
            elif s["op"] == "agg":
                stat["calls"] += 1
                stat["stopped"] += s["obs"]["exc"] == "crash"
                stat["check_failed"] += s["obs"]["exc"] == "seed" and "order" not in s["obs"]["msg"]
                stat["order_failed"] += s["obs"]["exc"] == "seed" and "order" in s["obs"]["msg"]
                stat["not_final"] += not s["final"]
                stat["post_calls"] += sum(len(p) for p in s["obs"]["posts"])
    ctx.extra["histories"] = stat
    ctx.validate("TraceOupsAggStream.tla", traces, batch=200)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "keys": t["keys"], "steps": [{x: v for x, v in s.items() if x != "obs"} for s in t["steps"]],
                    "schedules": t["info"].get("schedules", [])[:1]})
    ctx.assumptions += [
        "aggregated values are positive integers or exact binary fractions",
        "row-count bins: labels of bins are distinct; right-closed with snapshots: no ordering value on both sides of a bin end",
        "periods of which a day is not a multiple only for unfiltered data",
        "a run stops between writes to the store, not within one; several keys on which the very first final write is interrupted are out of scope",
        "a restarted run goes at least as far as the abandoned one",
    ]
    return ctx.finish()

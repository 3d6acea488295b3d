"""C24: data asked chunk by chunk, results kept in memory bounded (spec OupsMemory)."""
import random


def run(ctx):
    q = ctx.quick
    rng = random.Random(ctx.rng_seed("plan"))
    mc = ctx.start_tlc("MCOupsMemory.tla", f"MCOupsMemory_{'quick' if q else 'thorough'}.cfg", workers=2)
    cases = [{"id": f"m{i}", "seed": ctx.rng_seed("m", i), "sizes": rng.choice([[1], [1, 2, 5], [0, 1, 3], [1, 8, 15], [3, 4, 5]]),
              "chunks": [3, 6, 9] if q else [3, 8, 14, 20], "limits": rng.choice([[0], [0, 30, 100], [50, 200, 800], [300, 1500]])}
             for i in range(120 if q else 3000)]
    cases += [{"id": f"d{i}", "seed": ctx.rng_seed("d", i), "sizes": [8, 15], "chunks": [12], "limits": [300, 800], "dense": True}
              for i in range(30 if q else 600)]
    traces = ctx.drive("drv_memory.py", cases, 700 if q else 5000)
    ctx.model_check_end(mc, 600 if q else 5000)
    writes = asks = 0
    for t in traces:
        for a, b in zip(t["steps"], t["steps"][1:]):
            asks += 1
            writes += b["op"] != "final" and a["disk"] != b["disk"]
    ctx.extra["chunks"] = asks
    ctx.extra["chunks_with_intermediate_writes"] = writes
    ctx.validate("TraceOupsMemory.tla", traces, batch=30)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "keys": t["keys"], "steps": t["steps"][:6]})
    ctx.assumptions += ["sizes in memory counted as 8 bytes per value of results, index left aside"]
    return ctx.finish()

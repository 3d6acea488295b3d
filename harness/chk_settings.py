"""C21: refused settings and restarts (spec OupsSettings)."""
import json
import random


def k0(m, snap=0):
    return {"main": m, "snap": snap, "binby": "period", "bkey": "t", "bon": "", "bout": "", "closed": "left", "snapby": int(snap > 0),
            "skey": "", "sclosed": "left", "outs": ["v"], "unknown": 0}


def dict_(keys):
    return {"form": "dict", "given": 0, "filters": [], "unknown": 0, "groups": [{"id": "_", "keys": keys}]}


def run(ctx):
    q = ctx.quick
    rng = random.Random(ctx.rng_seed("plan"))
    mc = ctx.start_tlc("MCOupsSettings.tla", f"MCOupsSettings_{'quick' if q else 'thorough'}.cfg", workers=3)
    seed = ctx.rng_seed("sim") % 2**31
    r = ctx.end_tlc(ctx.start_tlc("MCOupsSettings.tla", "MCOupsSettings_gen.cfg", workers=1,
                                  args=("-simulate", f"num={40 if q else 600}", "-depth", "9", "-seed", str(seed))), 600)
    hists = ctx.parse_tagged(r["out"], "HIST")
    keys = ctx.parse_tagged(r["out"], "KEYS")[0]
    filts = ctx.parse_tagged(r["out"], "FILTERS")[0]
    # A single history for each beginning.
    firsts = {}
    for h in hists:
        firsts.setdefault(json.dumps(h[:-1]), []).append(h)
    hists = [rng.choice(v) for _, v in sorted(firsts.items())]
    ctx.extra["settings_enumerated_by_tlc"] = {"of_a_key": len(keys), "of_filters": len(filts)}
    ctx.extra["histories_generated_by_tlc"] = len(hists)
    creates = [*rng.sample(keys, min(len(keys), 900)), *filts] if q else [*keys, *filts] * 2
    rng.shuffle(creates)
    cases, i = [], 0

    def together():
        ks = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 2, 3]))
        return {"op": rng.choice(["create", "create", "order"]), "s": dict_([k0(m, rng.choice([0, 0, m])) for m in ks])}

    def bad():
        kind = rng.choice(["column", "function", "post"])
        m = rng.choice([1, 2, 3, 4])
        return {"op": "badrun", "kind": kind, "s": dict_([k0(m, m if kind == "post" else rng.choice([0, m]))])}

    for n in range(0, len(creates), 30):
        # Nothing in the store, or a history first.
        h = hists[i % len(hists)] if i % 3 == 2 else []
        steps = [*h, *({"op": "create", "s": s} for s in creates[n:n + 30])]
        cases.append({"id": f"s{i}", "seed": ctx.rng_seed("s", i), "steps": steps})
        i += 1
    for j in range(60 if q else 600):
        h = list(hists[(i + j) % len(hists)])
        n = rng.randint(1, len(h))
        steps = [*h[:n], *(together() for _ in range(4)), bad(), *h[n:], *(together() for _ in range(4)), bad()]
        cases.append({"id": f"h{j}", "seed": ctx.rng_seed("h", j), "steps": steps})
    traces = ctx.drive("drv_settings.py", cases, 700 if q else 5000)
    ctx.model_check_end(mc, 300 if q else 1200)
    stat = {}
    for t in traces:
        for s in t["steps"]:
            if "exc" in s:
                k = s["op"] + (" refused" if s["exc"] else " accepted")
                stat[k] = stat.get(k, 0) + 1
    ctx.extra["outcomes"] = stat
    ctx.validate("TraceOupsSettings.tla", traces)
    for t in traces[:1] + traces[-1:]:
        ctx.sample({"id": t["id"], "steps": t["steps"][:6]})
    ctx.assumptions += [
        "settings: 3 columns, 4 keys, 2 filter ids; an aggregation going on with new keys besides existing ones is accepted as the code does",
        "order violation: while no intermediate write is triggered by the memory limit",
    ]
    return ctx.finish()

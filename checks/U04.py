import mbt
PT = {"TraceInit0": "<- FSt0", "TraceSteps": "<- FSteps", "TraceExpected": "<- FExpected"}


def agrees(e, o):
    if e.get("k") == "hasall" and o.get("k") == "hasall":
        return len(e["v"]) == len(o["v"]) and all(x in ("any", y) for x, y in zip(e["v"], o["v"]))
    return mbt.match(e, o)


def history(r, rolling):
    size, out = r.choice([1, 2, 3, 5, 8, 31, 100]), []
    out.append({"op": "new", "rolling": rolling, "size": size, "ppm": r.choice([1000, 10000, 100000]), "seed": r.randrange(1 << 30)})
    recent, fresh = [], 0
    for _ in range(r.choice([1, 2, 4, 7]) * size + 10):
        c = r.random()
        if c < .6:
            v = fresh if r.random() < .8 or not recent else r.choice(recent)
            fresh = max(fresh, v + 1); recent.append(v)
            out.append({"op": "ins", "v": v})
        elif c < .95 and recent:
            k = recent[-size:] if rolling else recent
            out.append({"op": "has", "v": r.choice([k[0], k[-1], r.choice(k), r.choice(recent), fresh + 1])})
        elif c < .97: out.append({"op": "rate", "lo": 1 << 20, "hi": (1 << 20) + 500} if rolling or len(set(recent)) <= size else {"op": "has", "v": 0})
        elif not rolling: out.append({"op": "clear"}); recent = []; out.append({"op": "hasall", "v": 20})
    if rolling and recent:
        out += [{"op": "has", "v": v} for v in recent[-size:]]
        # what was inserted long ago is forgotten
        base = 1 << 21
        out += [{"op": "ins", "v": base + i} for i in range(2 * size + 2)]
        out.append({"op": "rate", "lo": 0, "hi": max(fresh, 1)})
        out.append({"op": "rate", "lo": 1 << 22, "hi": (1 << 22) + 4000})
    return out


def run(ctx):
    mbt.build("drv-utils")
    jobs = [dict(module="BloomsMC", consts={"ROLLING": "TRUE" if rl else "FALSE", "SIZE": n, "VALS": v, "DEPTH": ctx.pick(7, 9) if v == 2 else 5}, invariants=["Enough"], tag=f"{rl}{n}{v}")
            for rl, n, v in [(True, 1, 2), (True, 2, 2), (True, 3, 2), (True, 4, 2), (True, 2, 3), (True, 3, 4), (False, 2, 3), (False, 1, 2)]]
    for tr in mbt.explore_many(ctx, jobs):
        ws = []
        for w in mbt.walks(ctx, tr):
            ws.append([y for a, o in w for y in ((a, {"k": "ok"}), ({"op": "hasall", "v": len(o["v"])}, o))])
        mbt.replay(ctx, "drv-utils", "bloom", ws, what="insertions into a filter", cmp=agrees)
    mbt.run_traces(ctx, "drv-utils", "bloom", "BloomsTrace", [history(ctx.rng, i % 3 != 0) for i in range(ctx.pick(60, 600))], PT, per_file=1500)

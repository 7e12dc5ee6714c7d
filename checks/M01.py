import mbt
LT = {"TraceInit0": "<- LSt0", "TraceSteps": "<- LSteps", "TraceExpected": "<- LExpected"}
FORMS = ["call_async_mut", "call_async", "call_mut", "call", "submit_async_mut", "submit_async", "submit_mut", "submit"]
GATED = {"call_async_mut", "call_async", "submit_async_mut", "submit_async"}


def history(r, n):
    out, i, gated, calls = [{"op": "start"}], 0, [], []
    if r.random() < .8: out.append({"op": "ready"})
    ready, stop = len(out) > 1, False
    def one():
        nonlocal i, ready, stop
        x = r.random()
        if x < .5:
            i += 1
            f = r.choice(FORMS)
            if f in GATED: gated.append(i)
            if not f.startswith("submit"): calls.append(i)
            return {"op": "submit", "i": i, "form": f, "work": r.choice([0, 0, 0, 1, 3]) if "mut" in f else 0}
        if x < .85 and gated: return {"op": "open", "i": gated.pop(r.randrange(len(gated)))}
        if x < .9 and calls: return {"op": "forget", "i": calls.pop(r.randrange(len(calls)))}
        if x < .93 and not ready: ready = True; return {"op": "ready"}
        if x < .95 and not stop and len(out) > n // 2: stop = True; return {"op": "stop"}
    while len(out) < n:
        if r.random() < .3: out.append({"op": "batch", "acts": [a for a in (one() for _ in range(r.randint(2, 5))) if a]})
        else:
            a = one()
            if a: out.append(a)
    out += [{"op": "open", "i": j} for j in gated]
    return out


def run(ctx):
    mbt.build("drv-sub")
    jobs = [dict(module="SubsystemsMC", consts={"N": ctx.pick(7, 9), "MAXC": ctx.pick(3, 4)}, invariants=["Allowed", "AtRest", "Exclusive", "NothingAfter"], properties=["Settles"], view="ViewOf", emit=False),
            dict(module="SubsystemsActs", consts={"N": ctx.pick(7, 8), "MAXC": ctx.pick(3, 4)})]
    _, lists = mbt.explore_many(ctx, jobs)
    acts = [x["a"] for x in lists]
    if not ctx.thorough: acts = ctx.rng.sample(acts, 4000)
    mbt.run_traces(ctx, "drv-sub", "calls", "SubsystemsTrace", acts, LT, tag="all", per_file=1500)
    mbt.run_traces(ctx, "drv-sub", "calls", "SubsystemsTrace", [history(ctx.rng, 40) for _ in range(ctx.pick(150, 1500))], LT, tag="random", per_file=100)
    free = [[{"op": "run", "callers": ctx.rng.randint(2, 5), "calls": ctx.rng.randint(3, 10), "threads": ctx.rng.choice([1, 2, 4, 8]), "seed": k, "work": ctx.rng.randint(0, 1), "stop": ctx.rng.random() < .4}]
            for k in range(ctx.pick(200, 3000))]
    mbt.run_traces(ctx, "drv-sub", "conc", "SubsystemsTrace", free, LT, tag="free", per_file=60)

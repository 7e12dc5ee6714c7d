import mbt
PT = {"TraceInit0": "<- B0", "TraceSteps": "<- BSteps", "TraceExpected": "<- BExpected"}


def history(r, n, many):
    out, alive, tot = [], [], 0
    for k in range(n):
        c = r.random()
        if many and k < n // 2 and .55 <= c < .6: c = .61      # long stretches without events
        if c < (.55 if many else .12) or not tot:
            out.append({"op": r.choice(["sub", "sub", "using"])}); alive.append(tot); tot += 1
        elif c < (.6 if many else .4): out.append({"op": "cast", "v": k})
        elif c < .42 and not many: out.append({"op": "purge"})
        elif c < .62: out.append({"op": "count"})
        elif alive:
            i = r.choice(alive[-4:] if r.random() < .5 else alive)
            if r.random() < (.5 if many else .1): out.append({"op": "drop", "i": i}); alive.remove(i)
            elif r.random() < .1: out.append({"op": "stream", "i": i})
            else: out += [{"op": "recv", "i": i}] * r.choice([1, 1, 2, 5])
    out.append({"op": "end"})
    for i in alive[:30]: out += [{"op": "recv", "i": i}] * 6
    return out


def run(ctx):
    mbt.build("drv-utils")
    tr = mbt.explore(ctx, "BroadcastsMC", {"SUBS": ctx.pick(2, 3), "CASTS": 2}, invariants=["Faithful"], view="StateView")
    mbt.replay(ctx, "drv-utils", "broadcast", mbt.walks(ctx, tr), what="broadcasts and subscriptions")
    r = ctx.rng
    mbt.run_traces(ctx, "drv-utils", "broadcast", "BroadcastsTrace", [history(r, r.choice([60, 200]), False) for _ in range(ctx.pick(30, 300))] + [history(r, 700, True) for _ in range(ctx.pick(4, 30))], PT, per_file=2500)

import mbt
PT = {"TraceInit0": "<- S0", "TraceSteps": "<- SSteps", "TraceExpected": "<- SExpected"}


def history(r, steps, burst):
    out, conns, subs, v = [], [], [], 0
    def seen(k, lo, n): return sum(1 for x in range(lo, lo + n) if k != "odd" or x % 2)
    for _ in range(steps):
        c = r.random()
        live = [i for i, s in enumerate(subs) if conns[s[0]]]
        if not any(conns) or c < .06: conns.append(True); out.append({"op": "connect"})
        elif c < .25:
            k = r.choice([i for i, x in enumerate(conns) if x])
            kind = r.choice(["plain", "map", "odd", "big"] if burst else ["plain", "map", "odd"])
            subs.append([k, kind, True, 0]); out.append({"op": "sub", "c": k, "kind": kind})
        elif c < .6:
            n = r.choice([1, 1, 2, 5, burst or 9])
            out.append({"op": "cast", "v": v, "n": n})
            for s in subs:
                if s[2]: s[3] += seen(s[1], v, n)
            v += n
        elif c < .85 and live:
            i = r.choice(live); out.append({"op": "drain", "i": i, "n": subs[i][3], "wait": r.choice([0, 0, 0, 10])}); subs[i][3] = 0
        elif c < .91 and live:
            i = r.choice(live)
            out += [{"op": "drain", "i": i, "n": subs[i][3], "wait": 0}, {"op": "unsub", "i": i}]; subs[i][3] = 0; subs[i][2] = False
        elif c < .94 and not (burst and c < .93):
            k = r.choice([i for i, x in enumerate(conns) if x])
            out.append({"op": "close", "c": k, "abrupt": r.random() < .6}); conns[k] = False
            for s in subs:
                if s[0] == k: s[2] = False; s[3] = 0
        else: out.append({"op": "ping", "c": r.choice([i for i, x in enumerate(conns) if x])})
    if r.random() < .5: out.append({"op": "end"})
    for i, s in enumerate(subs):
        if conns[s[0]]: out.append({"op": "drain", "i": i, "n": s[3], "wait": 30})
    return out


def run(ctx):
    mbt.build("drv-rpc")
    jobs = [dict(module="SubscriptionsMC", consts={"CONNS": 2, "SUBS": 2, "CASTS": 2, "KINDS": '{"plain"}'}, invariants=["Faithful"], view="StateView", tag="2"),
            dict(module="SubscriptionsMC", consts={"CONNS": 1, "SUBS": 2, "CASTS": 3, "KINDS": '{"map", "odd"}'}, invariants=["Faithful"], view="StateView", tag="1")]
    for tr in mbt.explore_many(ctx, jobs):
        mbt.replay(ctx, "drv-rpc", "subs", mbt.walks(ctx, tr), what="subscriptions over a websocket")
    r = ctx.rng
    mbt.run_traces(ctx, "drv-rpc", "subs", "SubscriptionsTrace", [history(r, 60, 0) for _ in range(ctx.pick(25, 300))] + [history(r, 40, 1500) for _ in range(ctx.pick(4, 30))], PT, per_file=700)

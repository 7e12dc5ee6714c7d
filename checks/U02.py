import mbt
ET = {"TraceInit0": "<- E0", "TraceSteps": "<- ESteps", "TraceExpected": "<- EExpected"}
CT = {"TraceInit0": "<- CSt0", "TraceSteps": "<- CSteps", "TraceExpected": "<- CExpected"}


def plan(r):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        subs = [{"gated": r.random() < .3} for _ in range(r.choice([0, 1, 2, 3]) if out else r.choice([1, 2, 3]))]
        ths = []
        for t in range(r.choice([1, 2, 2, 3])):
            acts = []
            for _ in range(r.randint(1, 6)):
                c = r.random()
                acts.append({"op": "pub"} if c < .6 and t < 3 else {"op": "pause", "n": r.choice([0, 0, 1, 3])} if c < .7 else {"op": "open", "n": r.randint(1, 9)} if c < .8 else {"op": "wait"})
            ths.append(acts)
        # whatever is gated gets through in the end, so that waits return
        ths.append([{"op": "pause", "n": r.choice([1, 4, 15])}, {"op": "open", "n": 1000}])
        out.append({"subs": subs, "threads": ths})
    return out


def run(ctx):
    mbt.build("drv-utils")
    r = ctx.rng
    mbt.explore_many(ctx, [
        dict(module="EventHandlersMC", consts={"H": 2, "PUBS": ctx.pick(2, 3)}, invariants=["InOrder", "WaitsReally"], emit=False, workers=3),
        dict(module="EventHandlersMC", consts={"H": 2, "PUBS": 1}, properties=["AllSeen"], emit=False, workers=2, tag="live"),
        dict(module="CountersMC", consts={"SEQ": "FALSE", "G": 0, "W": 0}, invariants=["Guards"], properties=["WaitsAtZero", "AllEnd"], emit=False, workers=2)])
    tr = mbt.explore(ctx, "CountersMC", {"SEQ": "TRUE", "G": ctx.pick(2, 3), "W": ctx.pick(2, 3)}, tag="seq")
    mbt.replay(ctx, "drv-utils", "count", mbt.walks(ctx, tr), what="counter of outstanding work")
    acts, n = [], ctx.pick(60, 600)
    for _ in range(n):
        acts += [{"op": "reset"}, {"op": "run", "plan": plan(r)}]
    logs(ctx, "events", acts, "EventHandlersTrace", ET, "log of event handlers")
    acts = []
    for _ in range(ctx.pick(60, 600)):
        ths = [[r.choice(["inc", "inc", "dec", "dec", "val", "pause"]) for _ in range(r.randint(1, 7))] for _ in range(r.choice([1, 2, 2]))]
        ths.append([r.choice(["val", "wait", "pause"]) for _ in range(r.randint(1, 4))])
        acts += [{"op": "reset"}, {"op": "stress", "threads": ths}]
    logs(ctx, "count", acts, "CountersTrace", CT, "log of a counter used by several threads")


def logs(ctx, mod, acts, spec, consts, what):
    traces = []
    for o in mbt.drive("drv-utils", mod, acts, timeout=600)[1::2]:
        if o.get("k") != "log":
            ctx.violation(what, {"module": mod, "observed": o})
            return
        traces.append([{"a": e, "o": {}} for e in o["log"]])
    ctx.note("overlaps", sum(1 for t in traces for x, y in zip(t, t[1:]) if x["a"]["t"] != y["a"]["t"]))
    mbt.validate(ctx, spec, traces, consts, what=what, tag=mod, per_file=2500)

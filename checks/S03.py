import mbt
PT = {"TraceInit0": "<- CSt0", "TraceSteps": "<- CSteps", "TraceExpected": "<- CExpected"}


def run(ctx):
    mbt.build("drv-store")
    tr = mbt.explore(ctx, "StorageConcMC", {"N": ctx.pick(3, 4), "V": 2}, invariants=["Exclusive", "NoWaitForNothing"], properties=["OnlyCommit"])
    ws = mbt.walks(ctx, tr)
    for m in ("conc-inmemory", "conc-sqlite"):
        mbt.replay(ctx, "drv-store", m, ws, what=f"schedule of transactions on {m}")
    for m in ("conc-inmemory", "conc-sqlite"):
        acts, traces = [], []
        for i in range(ctx.pick(25, 300)):
            acts += [{"op": "reset"}, {"op": "stress", "threads": 2 + i % 4, "iters": ctx.pick(12, 25), "seed": ctx.rng.randrange(1 << 40)}]
        for o in mbt.drive("drv-store", m, acts)[1::2]:
            if o.get("k") != "log":
                ctx.violation("concurrent transactions", {"module": m, "observed": o})
                return
            traces.append([{"a": e, "o": {}} for e in o["log"]])
        ctx.note("overlaps", sum(1 for t in traces for x, y in zip(t, t[1:]) if x["a"]["t"] != y["a"]["t"]))
        mbt.validate(ctx, "StorageConcTrace", traces, PT, what=f"log of concurrent transactions on {m}", tag=m, per_file=3000)

import mbt
LT = {"TraceInit0": "<- LSt0", "TraceSteps": "<- LSteps", "TraceExpected": "<- LExpected"}
INV = ["OverLast", "Reverse", "NoneForgotten", "SelfEnd", "Usable"]


def run(ctx):
    mbt.build("drv-sub")
    jobs = [dict(module="ManagersMC", consts={"SIZES": z, "N": n, "HOWS": h, "CALLS": c, "TIMEOUTS": t}, invariants=INV, view="ViewOf", tag=g)
            for g, z, n, h, c, t in (("calls", "{1, 2}", ctx.pick(6, 7), "{0, 2}", "TRUE", "{0}"),
                                     ("times", "{2}", ctx.pick(7, 8), "{0}", "FALSE", "{10}"),
                                     ("order", "{0, 1, 2, 3}", ctx.pick(8, 9), ctx.pick("{0, 1}", "{0, 1, 2}"), "FALSE", "{0}"))]
    for tr in mbt.explore_many(ctx, jobs):
        mbt.replay(ctx, "drv-sub", "manager", mbt.walks(ctx, tr), what="shutdown of subsystems")

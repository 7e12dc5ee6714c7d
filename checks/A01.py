import mbt
from deltas_common import *


def run(ctx):
    mbt.build("drv-acct")
    for nk, nv, nd, depth, tag in ctx.pick([(1, 2, 3, 4, "a"), (2, 1, 2, 4, "b")], [(1, 2, 3, 6, "a"), (2, 1, 3, 5, "b")]):
        tr = explore_deltas(ctx, nk, nv, nd, depth, tag)
        mbt.replay(ctx, "drv-acct", "deltas", mbt.walks(ctx, tr), setup={"nk": nk})
    nk = 5
    hist = [random_history(ctx.rng, ctx.pick(150, 300), nk, 3, 0.05, h)
            for h in (1.0, 0.95, 0.8) for _ in range(ctx.pick(12, 120))]
    # every combination of a record with a change
    hist.append([{"op": "apply", "rec": r, "d": d} for r in range(4) for d in [[]] + [[o, n] for o in range(4) for n in range(4)]])
    mbt.run_traces(ctx, "drv-acct", "deltas", "DeltasTrace", hist, {"NK": nk, **CT}, setup={"nk": nk})

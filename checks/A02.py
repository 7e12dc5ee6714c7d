import mbt
from deltas_common import *


def run(ctx):
    mbt.build("drv-acct")
    for nk, nv, nd, depth, tag in ctx.pick([(1, 2, 2, 4, "a"), (2, 1, 2, 4, "b")], [(1, 3, 2, 5, "a"), (2, 1, 3, 5, "b")]):
        tr = explore_deltas(ctx, nk, nv, nd, depth, tag)
        mbt.replay(ctx, "drv-acct", "deltas", mbt.walks(ctx, tr), setup={"nk": nk})
    nk = 5
    hist = [random_history(ctx.rng, ctx.pick(150, 300), nk, 3, w, h)
            for w in (0.2, 0.4) for h in (1.0, 0.85) for _ in range(ctx.pick(10, 100))]
    mbt.run_traces(ctx, "drv-acct", "deltas", "DeltasTrace", hist, {"NK": nk, **CT}, setup={"nk": nk})

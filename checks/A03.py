import mbt
from deltas_common import CT
MAXS, MINS, MAXU = 2**127 - 1, -2**127, 2**128 - 1


def rs(rng):
    c = rng.random()
    if c < 0.3: return rng.randint(-5, 5)
    if c < 0.6: return rng.choice([MAXS, MINS, MAXS - rng.randint(0, 4), MINS + rng.randint(0, 4), MAXS // 2 + rng.randint(-2, 2), MINS // 2])
    return rng.randint(MINS, MAXS) >> rng.choice([0, 1, 1, 8, 64])


def ru(rng):
    c = rng.random()
    if c < 0.4: return rng.randint(0, 5)
    if c < 0.6: return rng.choice([MAXS, MAXS + 1, MAXU, MAXS - rng.randint(0, 3)])
    return rng.randint(0, MAXU) >> rng.choice([0, 1, 2, 64])


def history(rng, n, nk):
    acts, depth = [], 1
    for _ in range(n):
        r = rng.random()
        k = rng.randint(1, nk)
        if r < 0.25: acts.append({"op": rng.choice(["deposit", "withdraw"]), "key": k, "v": mbt.big(ru(rng))})
        elif r < 0.5: acts.append({"op": "delta", "key": k, "v": mbt.big(rs(rng))})
        elif r < 0.65: acts.append({"op": rng.choice(["merge", "unmerge"]),
                                    "c": [[rng.randint(1, nk), mbt.big(rs(rng))] for _ in range(rng.randint(0, 3))]})
        elif r < 0.75 and depth < 4: acts.append({"op": "push"}); depth += 1
        elif r < 0.85: acts.append({"op": "apply", "v": mbt.big(ru(rng)), "d": [mbt.big(rs(rng))] if rng.random() < .9 else []})
        elif r < 0.93: acts.append({"op": "flush"})
        elif depth > 1: acts.append({"op": "unflush"})
        # the driver decides whether a flush succeeds; depth is only an upper bound here
        if acts and acts[-1]["op"] in ("unflush",):
            acts.pop()
            acts.append({"op": "push"})
            acts += [{"op": "delta", "key": k, "v": mbt.big(rs(rng))}, {"op": "unflush"}]
    return acts


def run(ctx):
    mbt.build("drv-acct")
    for nk, depth, nd, rich, tag in ctx.pick([(1, 4, 2, "FALSE", "a")], [(1, 4, 2, "TRUE", "a"), (2, 4, 2, "FALSE", "b")]):
        tr = mbt.explore(ctx, "AmountDeltasMC", {"NK": nk, "SBITS": 128, "DEPTH": depth, "ND": nd, "RICH": rich},
                         invariants=["ExactTotal", "NoEmptyEntry", "InRange"], view="ViewOf", tag=tag)
        mbt.replay(ctx, "drv-acct", "amounts", mbt.walks(ctx, tr), setup={"nk": nk})
    nk = 3
    hist = [history(ctx.rng, ctx.pick(100, 200), nk) for _ in range(ctx.pick(25, 200))]
    mbt.run_traces(ctx, "drv-acct", "amounts", "AmountDeltasTrace", hist, {"NK": nk, "SBITS": 128, **CT}, setup={"nk": nk})

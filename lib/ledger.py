"""Common part of the checks of ledger views (Layers.tla)."""
import mbt
PLAIN = {"Can": "<- Any2", "Show": "<- AsIs", "Child": "<- AsIs", "Merged": "<- Upper"}
INTS = {**PLAIN, "ZERO": 0, "THOUSAND": 1000, "Add": "<- TAdd", "Sub": "<- TSub", "Le": "<- TLe", "MulDiv": "<- TMulDiv"}
BIGS = {"ZERO": "<- GZero", "THOUSAND": "<- GThousand", "CAP": "<- GCap", "Add": "<- GAdd", "Sub": "<- GSub", "Le": "<- GLe", "MulDiv": "<- GMulDiv"}
LT = {**PLAIN, "TraceInit0": "<- L0", "TraceSteps": "<- LSteps", "TraceExpected": "<- LExpected"}
CAP = 2**127 - 1


def spin(r, n, act, unmerge=False, depth=4):
    """n steps on a stack of views; act() gives the next operation. The driver skips steps that are not possible."""
    out = []
    for _ in range(n):
        c = r.random()
        if c < .62: out.append({"op": "do", "act": act()})
        elif c < .74: out.append({"op": "undo"})
        elif c < .86: out.append({"op": "push"})
        elif c < .95: out.append({"op": "flush"})
        elif c < .97: out.append({"op": "drop"})
        elif unmerge: out += [{"op": "push"}, {"op": "do", "act": act()}, {"op": "flush"}, {"op": "unmerge"}]
    return out


def history(r, steps, act, unmerge, n, m):
    f = act if act.__name__ != "maker" else act(n, m)
    return spin(r, steps, lambda: f(r), unmerge)


def amount(r):
    c = r.random()
    if c < .35: return r.randint(0, 12)
    if c < .5: return r.choice([CAP, CAP + 1, CAP - r.randint(0, 3), 2**128 - 1, CAP // 2 + r.randint(-1, 2)])
    return r.getrandbits(128) >> r.choice([1, 2, 3, 30, 64, 100, 120])


def taken(t):
    return [x for x in t if x["o"].get("k") != "skip"]


def check(ctx, mod, name, jobs, setups, act, consts, n=3, m=2, unmerge=False, runs=None, steps=60):
    """jobs: explorations of <name>MC (consts, invariants, tag) replayed with each setup; random histories with act(r)."""
    for j, tr in zip(jobs, mbt.explore_many(ctx, [dict(module=name + "MC", view="StateView", **{k: v for k, v in x.items() if k != "setup"}) for x in jobs])):
        for su in j.get("setup") or setups:
            mbt.replay(ctx, "drv-ledger", mod, mbt.walks(ctx, tr), setup={"plain": True, **su}, what="views of the ledger")
    for k, su in enumerate(setups):
        mbt.run_traces(ctx, "drv-ledger", mod, name + "Trace", [history(ctx.rng, steps, act, unmerge, n, m) for _ in range(runs)],
                       {**BIGS, **LT, **consts}, setup={"n": n, "m": m, **su}, post=taken, tag=str(k), per_file=700)

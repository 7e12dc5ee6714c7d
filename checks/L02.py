import mbt, ledger
from ledger import INTS, CAP, amount


def maker(n, m):
    """Operations of a history; a pool identifier is used in at most one creation, except for refused repetitions soon after."""
    used = [0]

    def act(r):
        c = r.random()
        small = lambda: mbt.big(r.choice([r.randint(0, 20), 10**r.randint(1, 30), r.randint(1, 10**24)]))
        wide = lambda: mbt.big(min(amount(r), 2**128 - 1)) if r.random() < .2 else small()
        i, j = r.randint(1, max(1, used[0])), r.randint(1, m)
        if used[0] < n and (c < .1 or used[0] == 0):
            used[0] += 1
            return {"op": "create", "p": used[0], "key": r.randint(1, 4), "pledge": wide(), "cost": small(), "mpt": mbt.big(r.choice([0, 1, 1000, r.randint(0, 1000)]))}
        if c < .25: return {"op": "cdel", "p": i, "d": j, "key": r.randint(1, 4)}
        if c < .5: return {"op": "delegate", "d": j, "v": wide()}
        if c < .65: return {"op": "spend", "d": j, "v": wide()}
        if c < .9:
            ver = r.randint(0, 1)
            return {"op": "reward", "p": i, "ver": ver, "v": small() if ver == 0 else wide()}
        if c < .93: return {"op": "increase", "p": i, "v": wide()}
        if c < .96: return {"op": "ddel", "d": j}
        return {"op": "decommission", "p": i}
    return act


def run(ctx):
    mbt.build("drv-ledger")
    fn = {"Do": "<- SDo", "V0": "<- SV0", "Can": "<- SCan", "Show": "<- SShow"}
    base = {**INTS, "CAP": 1000, **fn, "Acts": "<- SActs", "UNMERGE": "FALSE"}
    job = lambda tag, bs, **c: dict(consts={**base, **c}, invariants=["Conserved", "NotNegative"], tag=tag, setup=[{"n": c["N"], "m": c["M"], "backend": b} for b in bs])
    jobs = [job("stack", ["mem", "tip", "sealed"], N=1, M=1, POOLS="<- C1", AMOUNTS="<- A1", REWARDS="<- R1", LAYERS=2, LOG=3, DEPTH=ctx.pick(3, 4), UNMERGE="TRUE"),
            job("rules", ["mem"], N=1, M=2, POOLS="<- C2", AMOUNTS="<- A2", REWARDS="<- R2", LAYERS=0, LOG=ctx.pick(5, 6), DEPTH=0),
            job("two", ["mem"], N=2, M=2, POOLS="<- C1", AMOUNTS="<- A1", REWARDS="<- R1", LAYERS=0, LOG=ctx.pick(5, 6), DEPTH=0)]
    ledger.check(ctx, "pools", "Pools", jobs, [{"backend": b} for b in ("mem", "tip", "sealed")], maker, {"N": 3, "M": 4, **fn}, n=3, m=4, unmerge=True, runs=ctx.pick(50, 600))

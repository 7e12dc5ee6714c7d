import mbt, ledger
from ledger import INTS, CAP, amount
UNIT = str((2**127 - 1) // 7)      # seven of these fit into a balance, fourteen into an amount


def act(r):
    i = r.randint(1, 3)
    c = r.random()
    a = lambda: mbt.big(min(r.choice([amount(r), r.randint(0, 9)]), 2**128 - 1))
    if c < .2: return {"op": "issue", "id": i, "kind": r.choice(["fixed", "lockable", "unlimited"]), "limit": a(), "freezable": r.random() < .8, "auth": r.randint(1, 4), "uri": r.randint(1, 9)}
    if c < .7: return {"op": r.choice(["mint", "mint", "unmint"]), "id": i, "v": a()}
    o = r.choice(["lock", "freeze", "unfreeze", "unfreeze", "auth", "uri"])
    return {"op": o, "id": i, **({"unfreezable": r.random() < .7} if o == "freeze" else {o: r.randint(1, 4)} if o in ("auth", "uri") else {})}


def run(ctx):
    mbt.build("drv-ledger")
    fn = {"Do": "<- KDo", "V0": "<- KV0"}
    base = {**INTS, "CAP": 7, **fn, "Acts": "<- KActs", "UNMERGE": "FALSE"}
    job = lambda tag, both=True, **c: dict(consts={**base, **c}, invariants=["Limits"], properties=["Kept"], tag=tag,
                                           setup=[{"n": c["N"], "backend": b, "unit": UNIT} for b in (["mem", "store"] if both else ["mem"])])
    jobs = [job("stack", N=1, ISSUES="<- I1", MINTS="<- M1", OTHERS="<- O1", LAYERS=2, LOG=ctx.pick(2, 3), DEPTH=ctx.pick(3, 5)),
            job("rules", False, N=1, ISSUES="<- I2", MINTS="<- M3", OTHERS="<- O2", LAYERS=0, LOG=ctx.pick(4, 6), DEPTH=0),
            job("two", N=2, ISSUES="<- I1", MINTS="<- M1", OTHERS="<- O1", LAYERS=1, LOG=2, DEPTH=ctx.pick(2, 3))]
    ledger.check(ctx, "tokens", "Tokens", jobs, [{"backend": "mem"}, {"backend": "store"}], act, {"N": 3, **fn}, n=3, runs=ctx.pick(60, 800))

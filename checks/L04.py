import mbt, ledger
from ledger import INTS, amount


def act(r):
    i = r.randint(1, 3)
    c = r.random()
    big = lambda x: mbt.big(min(x, 2**128 - 1))
    if c < .3:
        m = r.random()
        x, y = (r.randint(0, 9), r.randint(0, 9)) if m < .3 else (10**r.randint(1, 30), r.randint(1, 9) * 10**r.randint(1, 30)) if m < .5 else (amount(r), amount(r))
        return {"op": "create", "id": i, "key": r.randint(1, 4), "askc": r.randint(0, 2), "givec": r.randint(0, 2), "ask": big(x), "give": big(y)}
    if c < .84: return {"op": "fill", "id": i, "ver": r.randint(0, 1), "v": big(r.choice([1, 2, 3, r.randint(0, 9), amount(r), 10**r.randint(1, 30), r.randint(1, 9) * 10**r.randint(1, 30)]))}
    return {"op": r.choice(["freeze", "conclude"]), "id": i}


def run(ctx):
    mbt.build("drv-ledger")
    base = {**INTS, "CAP": 1000, "Do": "<- ODo", "V0": "<- OV0", "Acts": "<- OActs", "UNMERGE": "FALSE"}
    inv = ["Bounded", "Fair"]
    job = lambda tag, **c: dict(consts={**base, **c}, invariants=inv, tag=tag, setup=[{"n": c["N"], "backend": b} for b in (["mem", "store"] if c["LAYERS"] > 1 else ["mem"])])
    jobs = [job("stack", N=1, PRICES="<- P2", FILLS="{1, 2}", LAYERS=2, LOG=2, DEPTH=ctx.pick(3, 5)),
            job("price", N=1, PRICES="<- P3", FILLS="<- F6", LAYERS=0, LOG=ctx.pick(3, 4), DEPTH=0),
            job("two", N=2, PRICES="<- P2", FILLS="{1}", LAYERS=ctx.pick(1, 2), LOG=2, DEPTH=3)]
    for j in jobs:
        j.pop("x", None)
    ledger.check(ctx, "orders", "Orders", jobs, [{"backend": "mem"}, {"backend": "store"}], act, {"N": 3, "Do": "<- ODo", "V0": "<- OV0"}, n=3, runs=ctx.pick(60, 800))

import mbt, puremod
from ledger import INTS, BIGS, CAP, amount
FT = {"TraceInit0": "<- FV0", "TraceSteps": "<- FSteps", "TraceExpected": "<- FExpected"}
COIN = 10**11
M128 = 2**128 - 1


def cut(x): return mbt.big(min(max(x, 0), M128))


def world(r):
    """Operations that make pools, delegations, tokens and orders; some are refused."""
    out = []
    for p in (1, 2):
        if r.random() < .8: out.append({"op": "p", "act": {"op": "create", "p": p, "key": 1, "pledge": cut(amt(r)), "cost": cut(0), "mpt": cut(r.randint(0, 1000))}})
    for d in (1, 2):
        if r.random() < .8: out.append({"op": "p", "act": {"op": "cdel", "p": r.randint(1, 2), "d": d, "key": 2}})
        if r.random() < .8: out.append({"op": "p", "act": {"op": "delegate", "d": d, "v": cut(amt(r))}})
    if r.random() < .5: out.append({"op": "p", "act": {"op": "reward", "p": 1, "v": cut(amt(r)), "ver": 1}})
    for t in (1, 2):
        if r.random() < .85:
            out.append({"op": "k", "act": {"op": "issue", "id": t, "kind": r.choice(["fixed", "lockable", "unlimited"]), "limit": cut(amt(r)), "freezable": r.random() < .5, "auth": 1, "uri": 1}})
            out.append({"op": "k", "act": {"op": "mint", "id": t, "v": cut(amt(r))}})
            if r.random() < .2: out.append({"op": "k", "act": r.choice([{"op": "lock", "id": t}, {"op": "freeze", "id": t, "unfreezable": True}])})
    for o in (1, 2):
        if r.random() < .85:
            out.append({"op": "o", "act": {"op": "create", "id": o, "key": 1, "askc": r.randint(0, 2), "givec": r.randint(0, 2), "ask": cut(amt(r)), "give": cut(amt(r))}})
            if r.random() < .4: out.append({"op": "o", "act": {"op": "fill", "id": o, "ver": r.randint(0, 1), "v": cut(amt(r))}})
            if r.random() < .1: out.append({"op": "o", "act": {"op": "freeze", "id": o}})
    return out


def amt(r):
    c = r.random()
    if c < .3: return r.randint(0, 12)
    if c < .65: return r.randint(0, 400) * COIN + r.choice([0, 0, -1, 1, r.randint(0, COIN)]) if c > .35 else r.randint(1, 400) * COIN
    if c < .9: return 10**r.randint(1, 30) * r.randint(1, 9)
    return amount(r)


def tx(r, ver):
    ins, outs, pool = [], [], []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        c = r.random()
        i, v = r.randint(1, 2), amt(r)
        if c < .45:
            cur = r.choice([0, 0, 0, 1, 2])
            ins.append({"k": "out", "f": r.choice(["transfer", "lock", "htlc"]), "c": cur, "v": cut(v)})
            pool.append((cur, min(v, M128)))
        elif c < .5: ins.append({"k": "pool", "p": i, "f": r.choice(["create", "produce"])})
        elif c < .62: ins.append({"k": "spend", "d": i, "v": cut(v)})
        elif c < .7:
            ins.append({"k": "mint", "id": i, "v": cut(v)}); pool.append((i, min(v, M128)))
        elif c < .75: ins.append({"k": r.choice(["unmint", "locksupply", "freeze", "unfreeze", "auth", "uri"]), "id": i})
        elif c < .85: ins.append({"k": "fill", "id": i, "v": cut(v), "via": "new" if ver else r.choice(["old", "new"])})
        elif c < .93: ins.append({"k": "conclude", "id": i, "via": r.choice(["old", "new"])})
        elif c < .95: ins.append({"k": "freezeorder", "id": i})
        elif c < .97: ins.append({"k": "nft", "c": 3}); pool.append((3, 1))
        elif c < .99: ins.append({"k": "bad", "f": r.choice(["burn", "data", "cdel", "issue", "order"])})
        else: ins.append({"k": "missing"})
    if r.random() < .4: r.shuffle(ins)
    have = {}
    for c, v in pool: have[c] = have.get(c, 0) + v
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        c = r.random()
        cur = r.choice(list(have) or [0])
        v = have.get(cur, 0)
        v = r.choice([v, v // 2, v // 3, v - 1, v + 1, v - 50 * COIN, v - 100 * COIN, v - 20 * COIN, amt(r)]) if r.random() < .9 else amt(r)
        v = max(0, v)
        if c < .4: outs.append({"k": "out", "f": r.choice(["transfer", "htlc", "burn"]), "c": cur, "v": cut(v)})
        elif c < .75: outs.append({"k": "lock", "f": "lock", "c": cur, "v": cut(v), "kind": r.choice(["blocks"] * 5 + ["seconds", "height", "time"]), "n": r.choice([0, 1, 6, 7, 7, 8, 100])})
        elif c < .85: cur, _ = 0, outs.append({"k": r.choice(["stake", "delegate"]), "v": cut(v)})
        elif c < .9: cur, _ = 0, outs.append({"k": r.choice(["data", "issue", "nft", "produce", "cdel"])})
        else: outs.append({"k": "order", "c": cur, "v": cut(v)})
        if cur in have and r.random() < .8: have[cur] = max(0, have[cur] - v)
    return {"ins": ins, "outs": outs}


def history(r):
    out = []
    for _ in range(3):
        out += world(r)
        for _ in range(16):
            ver, mat = r.randint(0, 1), r.choice([0, 1, 7, 7, 7])
            if r.random() < .1: out.append({"op": "reward", "ver": ver, "mat": mat, "fee": cut(amt(r)), "subsidy": cut(amt(r)), "outs": tx(r, ver)["outs"]})
            else: out.append({"op": "txs", "ver": ver, "mat": mat, "txs": [tx(r, ver) for _ in range(r.choice([1] * 8 + [2, 3]))]})
    return out


def run(ctx):
    mbt.build("drv-ledger")
    base = {**INTS, "CAP": 1000000, "CAP2": 2000000, "ONEV": 1, "FEE": "<- Coins", "NP": 2, "ND": 2, "NK": 2, "NO": 2}
    for x in ("Can", "Show", "Child", "Merged"): base.pop(x)
    jobs = [dict(tag="main", consts={**base, "NI": ctx.pick(2, 3), "NU": 2, "MENU": '"main"', "MATS": ctx.pick("{7}", "{0, 7, 8}"), "VERS": "{1}"}),
            dict(tag="rest", consts={**base, "NI": ctx.pick(1, 2), "NU": ctx.pick(1, 1), "MENU": '"rest"', "MATS": "{0, 7}", "VERS": "{0, 1}"})]
    setup = {"plain": True, "n": 2, "m": 2}
    for j, tr in zip(jobs, mbt.explore_many(ctx, [dict(module="FundsMC", invariants=["Sound"], **j) for j in jobs])):
        pre = premade(tr)
        mbt.replay(ctx, "drv-ledger", "funds", [WORLD + c for c in pre], setup=setup, what="verdicts on transactions")
    mbt.run_traces(ctx, "drv-ledger", "funds", "FundsTrace", [history(ctx.rng) for _ in range(ctx.pick(80, 1500))],
                   {**BIGS, **FT, "CAP2": "<- GCap2", "ONEV": "<- GOne", "FEE": "<- GFee", "NP": 2, "ND": 2, "NK": 3, "NO": 2}, setup={"n": 3, "m": 2},
                   post=lambda t: [x for x in t if x["o"].get("k") != "skip"], per_file=700)


A = lambda ledger, **k: ({"op": ledger, "act": k}, {"k": "ok"})
WORLD = [A("p", op="create", p=1, key=1, pledge=30, cost=0, mpt=0), A("p", op="cdel", p=1, d=1, key=2), A("p", op="delegate", d=1, v=20),
         A("k", op="issue", id=1, kind="fixed", limit=10, freezable=True, auth=1, uri=1), A("k", op="mint", id=1, v=4),
         A("o", op="create", id=1, key=1, askc=0, givec=1, ask=10, give=20), A("o", op="fill", id=1, ver=1, v=4)]


def premade(tr):
    x = [(t["a"], t["o"]) for t in tr]
    return [x[i:i + 2000] for i in range(0, len(x), 2000)]

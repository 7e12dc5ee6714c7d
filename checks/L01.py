import mbt, ledger
from ledger import PLAIN

KEPT = [0, 1, 3, 4, 8, 10]
FN = {"Do": "<- UDo", "V0": "<- UV0", "Can": "<- UCan", "Show": "<- UShow", "Child": "<- UChild", "Merged": "<- UMerged"}


def catalogue(acts, n):
    c = [{"ins": [[0]], "outs": []} for _ in range(n)]
    for a in acts:
        if "t" in a: c[a["t"] - 1] = {"ins": a["ins"], "outs": a["outs"]}
    return c


def world(r, T, B, m):
    """Transactions made of outputs of earlier ones and of blocks; some spend the same outputs, some what cannot be spent."""
    code = lambda p: (r.choice(KEPT) if r.random() < p else r.randrange(12)) + 12 * r.randint(0, 5)
    outs, cat = {}, []
    for b in range(T + 1, T + B + 1):
        outs[b] = [code(.97) for _ in range(r.randint(1, m))]
    pts = [(b, i) for b in outs for i in range(len(outs[b]))]
    for t in range(1, T + 1):
        ins = []
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .15: ins.append([r.randint(0, 2)])
            elif c < .25: ins.append([r.choice([x for x in range(1, T + B + 1) if x < t or x > T]), r.randint(0, m - 1)])
            elif pts: ins.append(list(r.choice(pts[-8:])))
        outs[t] = [code(.85) for _ in range(r.randint(0, m))]
        cat.append({"ins": ins, "outs": outs[t]})
        pts += [(t, i) for i, c in enumerate(outs[t]) if c % 12 in KEPT]
    return cat, outs


def history(r, cat, outs, T, B, m, steps):
    now = [1]

    def act(r):
        c = r.random()
        h = r.choice([0, r.randint(1, 9), 10**6])
        pt = lambda: [r.randint(1, T + B), r.randint(0, m - 1)]
        if c < .55:
            t = min(T, max(1, now[0] + r.choice([0, 0, 0, -1, -2, 1])))
            now[0] = min(T, now[0] + r.randint(0, 1))
            return {"op": "tx", "t": t, **cat[t - 1], "h": h}
        if c < .72:
            b = r.randint(T + 1, T + B)
            none = r.random() < .5
            ins = [] if none else [pt() for _ in range(r.randint(1, 2))]
            return {"op": "reward", "b": b, "ins": ins, "none": none, "outs": outs[b], "h": max(1, h)}
        if c < .76:
            t = r.randint(1, T)
            return {"op": "outs", "t": t, **cat[t - 1], "h": h, "check": r.random() < .8}
        if c < .8:
            b = r.randint(T + 1, T + B)
            return {"op": "pay", "b": b, "outs": outs[b], "h": h, "check": r.random() < .5}
        if c < .84: return {"op": "best", "b": r.randint(0, 5)}
        if c < .88: return {"op": "add", "o": pt(), "c": r.choice(KEPT), "h": h, "ow": r.random() < .6}
        if c < .95: return {"op": "spend", "o": pt()}
        return {"op": "uncache", "o": pt()}
    return ledger.spin(r, steps, lambda: act(r))


def run(ctx):
    mbt.build("drv-ledger")
    base = {**PLAIN, **FN, "Acts": "<- UActs", "UNMERGE": "FALSE", "SOURCES": 4, "M": 3, "RAW": "<- W0", "REWARDS": "<- R0", "TXS": "<- X1"}
    job = lambda tag, **c: dict(module="UtxosMC", view="StateView", consts={**base, **c}, invariants=["Exact"], tag=tag)
    jobs = [job("stack", TXS="<- X2", RAW="<- W4", SOURCES=4, LAYERS=2, LOG=3, DEPTH=ctx.pick(3, 4)),
            job("rules", REWARDS="<- R2", RAW="<- W3", SOURCES=6, LAYERS=0, LOG=ctx.pick(5, 6), DEPTH=0),
            job("raw", RAW="<- W1", TXS="<- W0", SOURCES=1, LAYERS=ctx.pick(2, 3), LOG=ctx.pick(2, 3), DEPTH=3),
            job("best", RAW="<- W2", TXS="<- W0", SOURCES=1, LAYERS=2, LOG=ctx.pick(2, 3), DEPTH=ctx.pick(2, 3))]
    for j, tr in zip(jobs, mbt.explore_many(ctx, jobs)):
        cat = catalogue([t["a"]["act"] for t in tr if t["a"]["op"] == "do"], 4 if j["consts"]["SOURCES"] > 3 else 0)
        for be in ("mem", "store") if j["tag"] in ("stack", "best") else ("mem",):
            mbt.replay(ctx, "drv-ledger", "utxos", mbt.walks(ctx, tr), what="unspent outputs",
                       setup={"cat": cat, "blocks": j["consts"]["SOURCES"] - len(cat), "m": 3, "backend": be})
    for k in range(ctx.pick(4, 24)):
        T, B, m = [(6, 2, 2), (10, 2, 2), (4, 3, 3), (12, 4, 2)][k % 4]
        cat, outs = world(ctx.rng, T, B, m)
        su = {"cat": cat, "blocks": B, "m": m, "backend": ["mem", "store"][k // 2 % 2]}
        hs = [history(ctx.rng, cat, outs, T, B, m, 60) for _ in range(ctx.pick(25, 60))]
        mbt.run_traces(ctx, "drv-ledger", "utxos", "UtxosTrace", hs, {**ledger.LT, **FN, "SOURCES": T + B, "M": m}, setup=su, post=ledger.taken, tag=str(k), per_file=700)

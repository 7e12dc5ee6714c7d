import mbt
ST = {"TraceInit0": "<- MS0", "TraceSteps": "<- PSteps", "TraceExpected": "<- PExpected"}
NEVER = {"k": "height", "n": mbt.big(0)}
PK = lambda k: {"f": "pk", "key": k}
BODIES = ["pk", "pkh", "ms"]


def dest(r, deep=True):
    c = r.random()
    if c < .1: return {"f": "any"}
    if c < .5: return PK(r.randint(1, 4))
    if c < .75: return {"f": "pkh", "key": r.randint(1, 4)}
    if c < .8: return {"f": "sh", "key": 1}
    n = r.choice([1, 2, 2, 3, 3, 4, 32, 33]) if r.random() < .3 else r.randint(1, 4)
    return {"f": "ms", "min": r.choice([1, 1, 2, n, n, max(0, n - 1), n + 1]), "keys": [r.randint(1, 4) for _ in range(n)] if r.random() < .3 else list(range(1, n + 1))}


def lock(r, now, h):
    k = r.choice(["height", "time", "blocks", "seconds"])
    n = {"height": h, "time": now, "blocks": r.randint(0, h), "seconds": r.choice([0, 10, now - 100, now - 120, now - 115])}[k] + r.choice([0, 0, 1, -1, 2])
    if r.random() < .05: n = r.choice([2**63 - 1, 2**63, 2**64 - 1, 2**63 - 1 - h, 2**63 - h, 2**64 - now])
    return {"k": k, "n": mbt.big(min(max(n, 0), 2**64 - 1))}


DEAD = ["burn", "data", "cdel", "delegate", "issue", "order"]


def utxo(r, now, h):
    k = r.choice(["transfer"] * 3 + ["lock"] * 3 + ["pool", "produce", "htlc", "htlc", "htlc", "nft"] + ([r.choice(DEAD)] if r.random() < .1 else []))
    return {"k": k, "d": dest(r), "d2": dest(r), "v": r.choice([1, 1, 2, 3]), "src": r.choice([-1, 1, 1, 2, 3, 4]), "lock": lock(r, now, h), "secret": r.randint(0, 2) if r.random() < .8 else r.choice([100 + 4 * r.randint(0, 19), 100 + 4 * r.choice([0, 19]), 200 + 4 * r.randint(0, 31)])}


def world(r):
    via = r.choice(["chain", "chain", "pool"])
    h, now = (4, r.choice([90, 115, 120, 130, 200])) if via == "chain" else (r.randint(4, 8), r.choice([115, 125, 130, 200]))
    own = lambda: {"here": r.random() < .93, "key": dest(r)}
    return {"utxos": [utxo(r, now, h) for _ in range(6)], "pool": {**own(), "bal": r.randint(9, 11)}, "deleg": own(), "token": own(),
            "order": {**own(), "ia": r.randint(9, 10), "ig": 20, "a": r.randint(5, 6), "g": r.randint(11, 12)}, "h": h, "t": mbt.big(now), "times": [mbt.big(x) for x in (100, 120, 115)], "via": via}


def inp(r, reward=False):
    c = r.random()
    if c < .6 or reward: return {"k": "utxo", "c": "", "n": r.randint(1, 7) if r.random() < .05 else r.randint(1, 6)}
    if c < .7: return {"k": "deleg", "c": "", "n": r.randint(1, 3)}
    if c < .85: return {"k": "cmd", "c": r.choice(["mint", "unmint", "locksupply", "freeze", "unfreeze", "uri", "auth", "conclude", "fill"]), "n": r.randint(1, 3)}
    c = r.choice(["fill", "conclude", "freezeorder"])
    return {"k": "ocmd", "c": c, "n": r.randint(1, 3) if c == "fill" else 1}


def tx(r, ty=None):
    ty = ty or r.choice(["tx"] * 9 + ["reward"])
    ins = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        x = inp(r, ty == "reward")
        if x not in ins: ins.append(x)
    return {"ty": ty, "flags": mbt.big(r.choice([0, 0, 0, 1, 2**128 - 1])), "ins": ins, "outs": [r.randint(1, 4) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]}


def owner(w, x):
    """The destination that is asked to sign, and the wrapping it needs."""
    if x["k"] == "utxo":
        if x["n"] > len(w["utxos"]): return PK(1)
        u = w["utxos"][x["n"] - 1]
        return w["pool"]["key"] if u["k"] == "produce" else u["d"]
    return w["deleg" if x["k"] == "deleg" else "order" if x["c"] in ("conclude", "fill", "freezeorder") else "token"]["key"]


def twist(r, w):
    """The world a little different."""
    import copy
    w = copy.deepcopy(w)
    c = r.random()
    u = r.choice(w["utxos"])
    if c < .15: w["pool"]["bal"] += 1
    elif c < .4: w["order"][r.choice(["ia", "ig", "a", "g"])] += 1
    elif c < .5: u["v"] += 1
    elif c < .6: u["d"] = dest(r)
    elif c < .7: u["d2"] = dest(r)
    elif c < .8: u["secret"] += 1
    elif c < .9: w["pool"]["key"] = dest(r)
    else: u["lock"] = {"k": "time", "n": mbt.big(77)}
    return w


def alter(r, t):
    import copy
    t = copy.deepcopy(t)
    c = r.random()
    if c < .2 and t["outs"]: t["outs"][r.randrange(len(t["outs"]))] += 5
    elif c < .4: t["outs"].append(4)
    elif c < .5: t["outs"] = t["outs"][:-1]
    elif c < .7:
        x = inp(r, t["ty"] == "reward")
        if x not in t["ins"]: t["ins"].insert(r.randint(0, len(t["ins"])), x)
    elif c < .8 and len(t["ins"]) > 1: t["ins"].pop(r.randrange(len(t["ins"])))
    elif c < .9: r.shuffle(t["ins"])
    else: t["flags"] = mbt.big(3)
    return t


def check(r):
    w = world(r)
    t = tx(r)
    ver = r.choice([0, 1, 1, 1])
    how = r.choice(["full"] * 5 + ["locks", "sig"]) if t["ty"] == "tx" else "full"
    worlds = [w]
    t2 = alter(r, t) if r.random() < .35 else t
    if r.random() < .35: worlds.append(twist(r, w))
    msgs, wits = [], []
    dst = dest(r)
    at = r.randint(1, len(t2["ins"]))
    if r.random() < .7: dst = owner(w, t2["ins"][at - 1])
    for j, x in enumerate(t2["ins"]):
        d = owner(w, x)
        wrap, secret = "plain", 0
        u = w["utxos"][x["n"] - 1] if x["k"] == "utxo" and x["n"] <= len(w["utxos"]) else None
        if t2["ty"] == "reward" and u: d = u["d2"] if u["k"] == "pool" else u["d"]
        if how == "sig" and j == at - 1 and (u is None or u["k"] == "produce"): d = dst
        if u and u["k"] == "htlc":
            wrap = r.choice(["spend", "refund"])
            secret = u["secret"] if r.random() < .85 else 3
            if 100 <= secret < 180: secret %= 4
            elif r.random() < .1: secret = secret % 4 if secret >= 200 else 200 + 4 * r.randint(0, 31) + secret % 4
            if wrap == "refund": d = u["d2"]
        elif r.random() < .03: wrap = r.choice(["spend", "refund", "junk"])
        if (d["f"] == "any" or (x["k"] == "ocmd" and x["c"] == "fill") or r.random() < .03) and r.random() < .95 and wrap in ("plain", "junk"):
            wits.append({"k": "no"})
            continue
        mode = {"o": r.choice(["all", "all", "none", "single"]), "any": r.random() < .4}
        i = t["ins"].index(x) + 1 if x in t["ins"] else r.randint(1, len(t["ins"]))
        msgs.append({"w": len(worlds) if r.random() < .7 else 1, "tx": t if r.random() < .9 else t2, "i": i, "mode": mode if r.random() < .95 else {"o": r.choice(["all", "none", "single"]), "any": r.random() < .5}, "ver": ver if r.random() < .93 else 1 - ver})
        if msgs[-1]["tx"] is t2: msgs[-1]["i"] = j + 1
        m = len(msgs) if r.random() < .96 else r.randint(0, len(msgs))
        key = lambda k: k if r.random() < .96 else r.randint(1, 5)
        f = d["f"] if r.random() < .96 else r.choice(BODIES)
        if f == "pkh": body = {"f": "pkh", "pub": key(d.get("key", 1)), "sg": {"key": key(d.get("key", 1)), "m": m}}
        elif f == "ms":
            mn, ks = d.get("min", 1), d.get("keys", [1, 2])
            n = min(mn, len(ks)) if r.random() < .9 else r.randint(0, min(len(ks) + 1, 5))
            pos = sorted(r.sample(range(1, len(ks) + 1), n)) if n <= len(ks) and r.random() < .97 else list(range(1, n + 1))
            if r.random() < .05: ks = ks[:-1] + [4]
            if r.random() < .05: mn = max(0, mn + r.choice([-1, 1]))
            body = {"f": "ms", "min": mn, "keys": ks, "sigs": [{"ix": p, "sg": {"key": key(ks[p - 1] if p <= len(ks) else 1), "m": m if r.random() < .98 else 0}} for p in pos]}
        elif r.random() < .03: body = {"f": "junk"}
        else: body = {"f": "pk", "sg": {"key": key(d.get("key", 1)), "m": m}}
        wits.append({"k": "std", "mode": mode, "wrap": wrap, "secret": secret, "body": body})
    return {"op": "check", "how": how, "ver": ver, "worlds": worlds, "msgs": msgs, "tx": t2, "wits": wits, "i": at, "dst": dst}


def steps(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 32, 33])
    keys = [r.randint(1, 5) for _ in range(n)] if r.random() < .4 else list(range(1, n + 1))
    mn = r.choice([1, 2, n, n - 1, n // 2, n + 1, 0]) if r.random() < .5 else r.randint(1, n)
    out = [{"op": "challenge", "min": mn, "keys": keys}]
    for _ in range(r.choice([3, 6, 10, mn + 2])):
        ix = r.randint(1, n + 1) if r.random() < .1 else r.randint(1, n)
        k = keys[ix - 1] if ix <= n and r.random() < .93 else r.randint(1, 5)
        m = 1 if r.random() < .96 else 2
        c = r.random()
        if c < .75: out.append({"op": "sign", "ix": ix, "key": k, "m": m})
        elif c < .85: out.append({"op": "put", "ix": ix, "key": k, "m": m})
        else: out.append({"op": "verify", "m": m, "same": r.random() < .9})
    return out + [{"op": "verify", "m": 1, "same": True}]


def history(r):
    out = []
    for _ in range(40):
        a = check(r)
        # what a witness without the wrapping of a secret means to a check of time locks alone is not promised
        if a["how"] == "locks" and any(x["k"] == "utxo" and x["n"] <= 6 and a["worlds"][0]["utxos"][x["n"] - 1]["k"] == "htlc" and (y["k"] == "no" or y["wrap"] == "plain") for x, y in zip(a["tx"]["ins"], a["wits"])): continue
        out.append(a)
        if r.random() < .15: out += steps(r)
    return out


FAMS = ["kinds", "covers", "locks", "multi"]


def run(ctx):
    mbt.build("drv-ledger")
    inv = ["OnlyComplete", "SignedIsGood", "NoMore"]
    jobs = [dict(module="SpendsMC", tag=f, consts={"FAM": f'"{f}"', "DEEP": ctx.pick(4, 6) if f == "steps" else 1}, invariants=inv, view="ViewOf", workers=1) for f in FAMS + ["steps"]]
    for j, tr in zip(jobs, mbt.explore_many(ctx, jobs, par=5)):
        if j["tag"] == "steps": ws = mbt.walks(ctx, tr)
        else:
            x = [(t["a"], t["o"]) for t in tr]
            ws = [x[i:i + 500] for i in range(0, len(x), 500)]
        mbt.replay(ctx, "drv-ledger", "spends", ws, what={"kinds": "who may spend what", "covers": "what a signature covers", "locks": "locked until", "multi": "signatures of several", "steps": "collecting signatures"}[j["tag"]])
    mbt.run_traces(ctx, "drv-ledger", "spends", "SpendsTrace", [history(ctx.rng) for _ in range(ctx.pick(60, 1500))], ST, per_file=700)

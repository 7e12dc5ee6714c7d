import mbt, puremod
FORT = 2016 * 600
M256 = 2**256 - 1


def compact(v):
    n = (v.bit_length() + 7) // 8
    m = v << 8 * (3 - n) if n <= 3 else v >> 8 * (n - 3)
    if m & 0x800000: m, n = m >> 8, n + 1
    return m | n << 24


def bits(r, top=M256):
    c = r.random()
    if c < .75: return compact(min(top, r.getrandbits(r.choice([256, 250, 240, 224, 200, r.randint(1, 256)]))))
    if c < .9: return compact(top)
    return r.choice([r.getrandbits(32), r.randint(0, 36) << 24 | r.getrandbits(24)])


def ups(r, kind):
    """Upgrades whose tail is of the kind, and the height of the last change."""
    d = lambda: [mbt.big(bits(r))]
    cfg = lambda: {"limit": mbt.big(r.choice([M256, M256 // 120, 2**r.randint(1, 255), r.getrandbits(250) + 1])), "count": r.choice([2, 2, 3, 10, 100, r.randint(2, 200)]), "change": r.choice([0, 1, 1, 10, 500, 999, 1000, r.randint(0, 1000)])}
    ign = {"h": 0, "kind": "ign", "diff": [], "cfg": 0}
    if kind == "work":
        valid = lambda: [mbt.big(compact(r.getrandbits(r.randint(20, 255)) + 1))]
        return r.choice([[ign, {"h": r.randint(1, 5), "kind": "pow", "diff": d(), "cfg": 0}], [{"h": 0, "kind": "pow", "diff": valid(), "cfg": 0}],
                         [{"h": 0, "kind": "pow", "diff": valid(), "cfg": 0}, {"h": r.choice([2015, 2016, 4032]), "kind": "pow", "diff": d(), "cfg": 0}]])
    t = r.randint(1, 5)
    return r.choice([[ign, {"h": t, "kind": "pos", "diff": d(), "cfg": cfg()}], [ign, {"h": t, "kind": "pos", "diff": d(), "cfg": cfg()}, {"h": t + r.randint(1, 30), "kind": "pos", "diff": r.choice([[], d()]), "cfg": cfg()}]])


def acts(r, n):
    B, out = mbt.big, []
    for _ in range(n):
        op = r.choice(["work"] * 4 + ["stake"] * 6 + ["meets", "effective", "effective", "stakemeets", "stakemeets", "proof", "mine", "status"])
        a = {"op": op}
        base = r.randint(10**6, 2 * 10**9 - 10**8)
        chain = {"base": base, "step": r.choice([0, 1, 60, 120, 600, 700])}
        if op == "work":
            u = ups(r, "work")
            h = r.choice([2015, 4031, 6047, 2016 * r.randint(1, 30) - 1, r.randint(u[-1]["h"], u[-1]["h"] + 3000)])
            h = max(h, u[-1]["h"], 1)
            now = chain["base"] + chain["step"] * h
            now += min(r.choice([0, 0, r.randint(-100000, 10**6)]), 2**31 - 2 * 10**6 - now)
            took = r.choice([r.randint(-2000, 5 * FORT), FORT // 4 + r.randint(-2, 2), 4 * FORT + r.randint(-2, 2), FORT + r.randint(-2, 2)])
            at = [[h, now]] + ([[h - 2015, now - took]] if h >= 2015 and r.random() < .85 else [])
            at = [[x, max(0, t)] for x, t in at]
            a |= {"net": r.choice(["mainnet", "mainnet", "testnet", "signet", "regtest"]), "ups": u, "h": h, "bits": B(bits(r, 2**r.choice([255, 224, 250]))), "time": now + r.choice([1, 1200, 1201, 1199, 100, -5]), "at": at, **chain}
        elif op == "stake":
            u = ups(r, "stake")
            c = u[-1]["cfg"]
            h = u[-1]["h"] + r.choice([0, 0, 1, 2, r.randint(0, 250)]) - (1 if r.random() < .2 and u[-1]["diff"] else 0)
            lo = max(0, h - c["count"] + 1)
            now = chain["base"] + chain["step"] * h
            sp = r.choice([120, 120, 60, 1, 600, r.randint(1, 1000)])
            n_ = max(1, h - lo)
            at = [] if r.random() < .2 else [[h, now], [lo, max(0, now - max(-3, n_ * sp + r.choice([0, 1, -1, n_, r.randint(-n_ * sp, n_ * sp)])))]]
            if h == 0 or lo == h: at = at[:1]
            a |= {"net": "regtest", "ups": u, "h": h, "bits": B(bits(r, int(c["limit"]["$n"]))), "spacing": sp, "at": at, **chain}
        elif op == "meets":
            b = bits(r)
            n_, w = b >> 24, b & 0x7fffff
            t = min(M256, w << 8 * (n_ - 3) if n_ >= 3 else w >> 8 * (3 - n_))
            a |= {"bits": B(b), "hash": B(max(0, min(M256, t + r.choice([0, 1, -1, r.getrandbits(200), -r.getrandbits(200), 256, -256]))))}
        elif op in ("effective", "stakemeets"):
            sup = r.choice([6 * 10**19, r.randint(1, 10**20), r.randint(0, 10**4), 2**r.randint(20, 90), r.getrandbits(128)])
            bal = r.choice([sup // 1000 + r.randint(-2, 2), r.randint(0, sup), r.randint(0, sup // 1000 + 1), sup - 1, sup])
            pl = r.choice([bal, bal // 2, r.randint(0, max(0, bal)), 0, min(bal, sup // 1000), bal + 1])
            bal, pl = max(0, bal), max(0, min(pl, 2**128 - 1))
            a |= {"pledge": B(pl), "bal": B(bal), "sup": B(sup)}
            if op == "stakemeets":
                t = r.getrandbits(r.choice([256, 200, 190, 100, 10]))
                v = r.randint(0, 1)
                z = sup // 1000
                sg, s = min(bal, z), min(pl, z)
                e = bal if v == 0 or z == 0 else sg - ((sg * z * z - s * (z * sg - (z - sg) * s)) * 75375728) // (1075375728 * z * z)
                a |= {"v": v, "target": B(t), "hash": B(max(0, min(M256, t * e + r.choice([0, 1, -1, t, -t, r.getrandbits(100)]))))}
        elif op == "proof":
            t0 = r.randint(0, 10**9)
            a |= {"data": r.choice(["none", "pow", "pow", "pos", "pos"]), "bits": B(bits(r)), "t0": t0, "t1": max(0, t0 + r.choice([r.randint(0, 1300), r.randint(-5, 5), r.randint(0, 10**9)]))}
        elif op == "mine": a |= {"bits": B(compact(2**256 // r.choice([2, 3, 8, 30, 1000]))), "max": r.randint(0, 60), "stop": r.random() < .2, "seed": B(r.getrandbits(200))}
        elif op == "status":
            hs = sorted(r.sample(range(1, 40), r.randint(0, 4)))
            u = []
            for h in [0] + hs:
                x = ups(r, r.choice(["work", "stake"]))[-1]
                u.append(r.choice([{**x, "h": h}, {"h": h, "kind": "ign", "diff": [], "cfg": 0}]) if h or x["kind"] != "pow" else {"h": 0, "kind": "ign", "diff": [], "cfg": 0})
            h = r.choice([x["h"] for x in u] + [r.randint(0, 45), 10**6]) + r.choice([0, 0, 1])
            r.shuffle(u)
            a |= {"ups": u, "h": h}
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-chain")
    rich = ctx.thorough
    fams = ["work", "stake", "pure", "pool", "block", "status"]
    ts = mbt.explore_many(ctx, [{"module": "TargetsMC", "consts": {"FAM": f'"{f}"', "RICH": "TRUE" if rich else "FALSE"}, "invariants": ["Laws"], "tag": f, "timeout": 1500, "workers": 4} for f in fams])
    for f, tr in zip(fams, ts):
        ctx.note(f"{f}: {len(tr)} cases")
        mbt.replay(ctx, "drv-chain", "targets", [[(x["a"], x["o"])] for x in tr], what="answer of the rule")
    slots = [{"op": "proof", "data": "pos", "bits": mbt.big(0x1d00ffff), "t0": 10**9, "t1": 10**9 + t} for t in range(0, 1203, 1 if rich else 3)] + [{"op": "proof", "data": "pos", "bits": mbt.big(0), "t0": 0, "t1": t} for t in (1198, 1199, 1200, 1201)]
    puremod.rnd(ctx, "drv-chain", "targets", "TargetsTrace", slots + acts(ctx.rng, ctx.pick(2400, 40000)))

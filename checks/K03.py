import mbt, terms
LT = {"TraceInit0": "<- LSt0", "TraceSteps": "<- LSteps", "TraceExpected": "<- LExpected"}
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 2**256 - 2**32 - 977
Q = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493


def on_curve(x): return x < P and pow((x**3 + 7) % P, (P - 1) // 2, P) <= 1


def ristretto(b):
    """Whether 32 bytes encode an element of the ristretto group (RFC 9496, section 4.3.1)."""
    s = int.from_bytes(b, "little")
    if s >= Q or s & 1: return False
    d = -121665 * pow(121666, -1, Q) % Q
    u1, u2 = (1 - s * s) % Q, (1 + s * s) % Q
    v = (-(d * u1 * u1) - u2 * u2) % Q
    w = v * u2 * u2 % Q
    if w == 0: return s == 0
    if pow(w, (Q - 1) // 2, Q) != 1: return False      # 1/w must be a square
    i4 = pow(2, (Q - 1) // 4, Q)
    root = pow(w, (Q + 3) // 8, Q)
    if root * root % Q != w: root = root * i4 % Q
    inv = pow(root, -1, Q)
    if inv & 1: inv = Q - inv
    dx = inv * u2 % Q
    dy = inv * dx * v % Q
    x = 2 * s * dx % Q
    if x & 1: x = Q - x
    y = u1 * dy % Q
    return not (x * y % Q) & 1 and y != 0


def b32(x): return x.to_bytes(32, "big")


def encodings(r, n):
    out = []
    def shape(b):
        c = r.random()
        if c < .08: b = b[:-1]
        elif c < .14: b = b + b"\0"
        elif c < .17: b = b""
        elif c < .2: b = b[:r.randint(0, len(b))]
        elif c < .26 and b: b = bytes([r.choice([1, 2, 255])]) + b[1:]
        return b
    for _ in range(n):
        op = r.choice(["dec_pub", "dec_pub", "dec_sec", "raw_pub", "raw_sec", "dec_sig", "raw_sig", "dec_vpub", "dec_vpub", "dec_proof", "dec_proof"])
        kind = b"" if op.startswith("raw") else b"\0"
        a = {"op": op}
        if op.endswith("pub") and "v" not in op:
            x = r.choice([0, 1, 2, 3, 5, P - 1, P, P + 1, P + 2, 2**256 - 1, r.getrandbits(256), r.getrandbits(256)])
            b = shape(kind + bytes([r.choice([2, 3, 2, 3, 2, 3, 0, 1, 4, 5, 6, 7, 255])]) + b32(x))
            if len(b) == 65: continue
            a["on"] = len(b) == 33 + len(kind) and on_curve(int.from_bytes(b[len(kind) + 1:], "big"))
        elif op.endswith("sec"):
            b = shape(kind + b32(r.choice([0, 1, 2, N - 1, N, N + 1, N + 2**128, 2**256 - 1, r.getrandbits(256), r.randrange(1, N), r.getrandbits(8), N - r.getrandbits(200) % N])))
        elif op.endswith("sig"): b = shape(kind + r.choice([bytes(64), b"\xff" * 64, r.randbytes(64)]))
        elif op == "dec_vpub":
            x = r.choice([2, 4, 6, Q - 1, Q, Q + 1, Q + 2, 2**255 - 2, 2**255 + 2, 2**256 - 1, r.getrandbits(255) & ~1, r.getrandbits(255) & ~1, r.getrandbits(255) & ~1, r.getrandbits(256)])
            b = shape(b"\0" + x.to_bytes(32, "little"))
            if b[1:] == bytes(32): continue
            a["on"] = len(b) == 33 and ristretto(b[1:])
        else:
            def sc():
                v = r.choice([0, 1, L - 1, L, L + 1, 2**252, 2**253, 2**255 - 1, 2**256 - 1, r.randrange(L), r.randrange(L), r.randrange(L), r.randrange(L)])
                return v.to_bytes(32, "little")
            b = shape(b"\0" + r.choice([bytes(32), r.randbytes(32)]) + sc() + sc())
        a["b"] = list(b)
        out.append(a)
    return out


def runs(b):
    out = []
    for x in b:
        if out and out[-1][0] == x: out[-1][1] += 1
        else: out.append([x, 1])
    return out


def history(r, n):
    msgs = [b"", b"\0", b"\0\0", b"a", b"A", b"a" * 31, b"a" * 32, b"a" * 127, b"a" * 128, b"a" * 129, r.randbytes(32), r.randbytes(300)]
    msgs += [msgs[-1][:-1], msgs[-1] + b"\0", msgs[-1] + msgs[-1], bytes([msgs[-1][0] ^ 1]) + msgs[-1][1:]]
    def num(): return r.choice([0, 1, 255, 256, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1, r.getrandbits(64)])
    def transcript():
        its = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 5])):
            if r.random() < .5: its.append({"l": r.randint(0, 3), "t": r.choice(["num", "num", "raw"]), "v": runs(num().to_bytes(8, "little"))})
            else: its.append({"l": r.randint(0, 3), "t": "raw", "v": runs(r.choice(msgs))})
        return {"l": r.randint(0, 3), "items": its}
    def near(t):
        t = {"l": t["l"], "items": [dict(x) for x in t["items"]]}
        c = r.random()
        if c < .15: t["l"] ^= 1
        elif t["items"]:
            i = r.randrange(len(t["items"])); x = t["items"][i]
            if c < .3: x["l"] ^= r.choice([1, 2])
            elif c < .45 and x["t"] == "num": x["t"] = "raw"
            elif c < .55 and x["v"]: x["v"] = [[b ^ 1, k] for b, k in x["v"]]
            elif c < .7: t["items"].pop(i)
            elif c < .8: t["items"].append(x)
            elif c < .9: t["items"].reverse()
            elif x["t"] == "num": x["v"] = runs(num().to_bytes(8, "little"))
        return t
    sig, prf, out = {}, {}, []
    while len(out) < n:
        c, i = r.random(), r.randint(0, 3)
        if c < .05: out.append({"op": r.choice(["key", "vkey"]), "key": r.randint(0, 4)})
        elif c < .15 or (c < .5 and i not in sig):
            sig[i] = {"key": r.randint(0, 4), "m": runs(r.choice(msgs)), "len": 65}
            out.append({"op": "sign", "s": i, "key": sig[i]["key"], "m": sig[i]["m"], "aux": r.choice([0, 0, 1, 2, 77])})
        elif c < .4: out.append({"op": "check", "s": i, "key": r.choice([sig[i]["key"]] * 3 + [r.randint(0, 4)]), "m": r.choice([sig[i]["m"]] * 2 + [runs(r.choice(msgs))]), "neg": r.random() < .2})
        elif c < .46:
            if sig[i]["len"]:
                at, m = r.randrange(sig[i]["len"]), r.choice([1, 2, 128, 255, r.randint(1, 255)])
                out.append({"op": "spoil", "s": i, "at": at, "mask": m})
                out.append({"op": "check", "s": i, "key": sig[i]["key"], "m": sig[i]["m"], "neg": False})
                if r.random() < .7: out.append({"op": "spoil", "s": i, "at": at, "mask": m})
        elif c < .5:
            k = r.choice([0, 1, 33, 64, 65, 66, 130])
            if k != sig[i]["len"]:
                out.append({"op": "resize", "s": i, "n": k}); sig[i]["len"] = k
                out.append({"op": "check", "s": i, "key": sig[i]["key"], "m": sig[i]["m"], "neg": False})
                if k > 65: out.append({"op": "resize", "s": i, "n": 65}); sig[i]["len"] = 65
                elif r.random() < .6: del sig[i]
        elif c < .6 or i not in prf:
            t = near(r.choice(list(prf.values()))["t"]) if prf and r.random() < .4 else transcript()
            prf[i] = {"key": r.randint(0, 3), "t": t}
            out.append({"op": "prove", "s": i, "key": prf[i]["key"], "t": t, "how": r.choice(["plain", "rng", "other"]), "aux": r.randint(1, 4)})
        elif c < .85:
            p = prf[i]
            out.append({"op": "vcheck", "s": i, "key": r.choice([p["key"]] * 3 + [r.randint(0, 3)]), "t": r.choice([p["t"], p["t"], near(p["t"])]), "how": r.choice(["plain", "rng"])})
        elif c < .95:
            at, m = r.randrange(97), r.choice([1, 2, 64, 128, 255, r.randint(1, 255)])
            out.append({"op": "vspoil", "s": i, "at": at, "mask": m})
            out.append({"op": "vcheck", "s": i, "key": prf[i]["key"], "t": prf[i]["t"], "how": "plain"})
            if r.random() < .8: out.append({"op": "vspoil", "s": i, "at": at, "mask": m})
            else: del prf[i]
        else:
            d = r.choice(list(prf))
            if d != i: out.append({"op": "vswap", "s": i, "d": d}); out.append({"op": "vcheck", "s": i, "key": prf[i]["key"], "t": prf[i]["t"], "how": "plain"}); del prf[i]
    return out


def run(ctx):
    mbt.build("drv-crypto")
    jobs = [dict(module="SigsMC", consts={"FAM": f, "N": n}, invariants=["OnlySigned", "OneOutput", "OnlyProved"], view="ViewOf", tag=str(f)) for f, n in ((1, ctx.pick(3, 4)), (2, ctx.pick(3, 4)))]
    cmp = terms.Names().cmp(["out", "pre"])
    for tr in mbt.explore_many(ctx, jobs, par=2):
        mbt.replay(ctx, "drv-crypto", "sign", mbt.walks(ctx, tr), what="verification", cmp=cmp)
    acts = encodings(ctx.rng, ctx.pick(4000, 40000))
    lists = [history(ctx.rng, 60) for _ in range(ctx.pick(60, 600))] + [acts[i:i + 200] for i in range(0, len(acts), 200)]
    mbt.run_traces(ctx, "drv-crypto", "sign", "SigsTrace", lists, LT, post=terms.tokens(["pub", "out", "pre"]), per_file=900)

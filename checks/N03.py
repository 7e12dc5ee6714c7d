import mbt, puremod
BIN = ["add", "sub", "mul", "div", "rem", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "widening_mul",
       "and", "or", "xor", "cmp", "mul", "div", "rem", "widening_mul"]
UN = ["not", "bits", "trailing_zeros", "to_le", "to_be", "low_u64", "low_u32", "hex", "words", "consts"]


def rv(r, w):
    c = r.random()
    if c < .12: return r.randint(0, 20)
    if c < .25: return 2**w - 1 - r.choice([0, 1, r.getrandbits(64), 2**r.randint(0, w - 1)])
    if c < .4: return 2**r.randint(0, w - 1) + r.choice([0, 0, 1, -1])
    if c < .6:   # words that are 0, all ones or random
        return sum(r.choice([0, 2**64 - 1, r.getrandbits(64), 1, 2**63]) << (64 * i) for i in range(w // 64))
    return r.getrandbits(r.choice([w, w, w - 1, w // 2, 64, 65, 33, r.randint(1, w)]))


def acts(r, n):
    B, out = mbt.big, []
    for _ in range(n):
        if r.random() < .06:
            op, wa = r.choice([("128to256", 128), ("128tou128", 128), ("256to512", 256), ("512to256", 512), ("256tou128", 256), ("low128", 256)])
            x = rv(r, wa)
            if r.random() < .4: x = min(2**wa - 1, r.choice([rv(r, wa // 2), 2**(wa // 2) + r.randint(-2, 2)]))
            out.append({"op": op, "a": B(x)})
            continue
        w = r.choice([128, 256, 256, 512])
        M = 2**w - 1
        x = rv(r, w)
        a = {"w": w, "a": B(x), "b": B(0)}
        c = r.random()
        if c < .6:
            a["op"] = op = r.choice(BIN)
            y = rv(r, w)
            d = r.random()
            if d < .2: y = M - x + r.randint(-1, 1)
            elif d < .3: y = x + r.randint(-1, 1)
            elif d < .45 and x: y = M // x + r.randint(-1, 1)
            elif d < .55 and x:     # a division with a remainder near 0 or near the divisor
                y = max(1, x >> r.randint(0, w)) + r.randint(-1, 1)
            a["b"] = B(min(M, max(0, y)))
        elif c < .64: a.update(op="mul_u32", b=B(r.choice([r.getrandbits(32), 2**32 - 1, 0, 1])))
        elif c < .78:
            op = r.choice(["shl", "shr", "mask", "bit", "bit_slice"])
            n1 = r.choice([r.randint(0, w - 1), 64 * r.randint(0, w // 64 - 1), 64 * r.randint(1, w // 64) - 1])
            a.update(op=op, n=n1)
            if op in ("shl", "shr", "mask") and r.random() < .1: a["n"] = w + r.choice([0, 1, 64, w])
            if op == "bit_slice": a["n2"] = r.randint(n1, w)
        elif c < .85:
            k = w // 8 + (0 if r.random() < .8 else r.choice([-1, 1, -w // 8, -w // 16, 8, w // 8]))
            a.update(op=r.choice(["from_le", "from_be"]), s=mbt.byt(bytes(r.choice([0, 255, r.getrandbits(8)]) for _ in range(k))))
        elif c < .9: a.update(op=(o := r.choice(["from_u64", "from_u128"])), a=B(rv(r, w) % 2**(64 if o == "from_u64" else 128)))
        else: a["op"] = r.choice(UN)
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-num")
    puremod.mc(ctx, "drv-num", "wide", "WideIntsMC", {"RICH": ctx.pick("FALSE", "TRUE")}, ["InWidth", "Laws"])
    puremod.rnd(ctx, "drv-num", "wide", "WideIntsTrace", acts(ctx.rng, ctx.pick(6000, 60000)))

import mbt, puremod
CS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def poly(v):
    c = 1
    for x in v:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ x
        for i, g in enumerate([0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]):
            if t >> i & 1: c ^= g
    return c


def enc(h, syms, const=0x2bc830a3):
    l = h.lower()
    e = [ord(c) >> 5 for c in l] + [0] + [ord(c) & 31 for c in l]
    p = poly(e + syms + [0] * 6) ^ const
    return l + "1" + "".join(CS[x] for x in syms + [p >> 5 * (5 - i) & 31 for i in range(6)])


def acts(r, n):
    out, T = [], lambda s: mbt.byt(s.encode())
    for _ in range(n):
        h = "".join(chr(r.randint(97, 122)) if r.random() < .8 else chr(r.randint(33, 64)) for _ in range(r.choice([1, 2, 3, 4, 4, 10, 83])))
        op = r.choice(["b_enc", "b_dec", "b_dec", "b_dec", "b_dec", "h_hex", "h_parse", "h_parse", "h_cmp", "ua"])
        a = {"op": op}
        if op == "b_enc":
            c = r.random()
            if c < .1: h = h.upper()
            elif c < .15: h = h[:1].upper() + "x" + h[1:]
            elif c < .2: h = r.choice(["", "é", "a b", "a" * 84, "\x7f", "a" * 83])
            a.update(h=T(h), d=mbt.byt(r.randbytes(r.choice([0, 1, 2, 20, 20, 21, 32, 33, r.randint(0, 60), 620, 632, 633]))))
        elif op == "b_dec":
            syms = [r.randint(0, 31) for _ in range(r.choice([0, 1, 2, 3, 8, 32, 33, 34, 53, r.randint(0, 90)]))]
            c = r.random()
            s = enc(h, syms, 0x2bc830a3 if c > .1 else r.choice([1, 0, 0x2bc830a2, 0x3fffffff]))
            if c > .45:
                for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
                    i = r.randint(0, len(s) - 1)
                    m = r.random()
                    if m < .5: s = s[:i] + r.choice(CS + "1bio") + s[i + 1:]
                    elif m < .6: s = s[:i] + s[i].upper() + s[i + 1:]
                    elif m < .7: s = s[:i] + s[i + 1:]
                    elif m < .8: s = s[:i] + r.choice("qpl") + s[i:]
                    elif m < .9: s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
                    else: s = s[:i] + r.choice([" ", "\x7f", "\n", "é"]) + s[i:]
                    if not s: s = "1"
            elif c > .35: s = s.upper()
            if r.random() < .01: s = enc(h, [0] * r.choice([1023 - len(h) - 7, 1023 - len(h) - 6]))
            a["s"] = T(s)
        elif op == "h_hex": a["d"] = mbt.byt(bytes(r.choice([0, 255, r.getrandbits(8)]) for _ in range(32)))
        elif op == "h_cmp":
            d = bytearray(r.randbytes(32))
            e = bytearray(d)
            for _ in range(r.choice([0, 1, 1, 2])): e[r.randint(0, 31)] = r.getrandbits(8)
            a.update(d=mbt.byt(d), e=mbt.byt(e))
        elif op == "h_parse":
            s = r.randbytes(32).hex()
            c = r.random()
            if c < .2: s = "0x" + s
            elif c < .3: s = s.upper()
            elif c < .45: s = s[: r.randint(0, 63)]
            elif c < .55: s += r.choice(["0", "00", "ff", "g"])
            elif c < .7:
                i = r.randint(0, 63)
                s = s[:i] + r.choice("gGxX/:@`-_") + s[i + 1:]
            elif c < .75: s = "0X" + s
            a["s"] = T(s)
        else:
            s = bytearray(r.randint(33, 126) for _ in range(r.choice([0, 1, 12, 24, 25, 30])))
            if s and r.random() < .4: s[r.randint(0, len(s) - 1)] = r.choice([32, 127, 9, 10, 0, 128, 255])
            a["s"] = mbt.byt(s)
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-num")
    puremod.mc(ctx, "drv-num", "texts", "TextsMC", ctx.pick({"N": 2, "LEN": 5}, {"N": 4, "LEN": 7}), ["RoundTrip", "OneError", "OtherVariant"])
    puremod.rnd(ctx, "drv-num", "texts", "TextsTrace", acts(ctx.rng, ctx.pick(4000, 40000)))

import mbt, puremod
MAXU = 2**128 - 1


def rm(r):
    c = r.random()
    if c < .15: return r.randint(0, 20)
    if c < .35: return r.randint(0, 10**r.randint(1, 38))
    if c < .55:
        k = r.randint(0, 38)
        return min(MAXU, r.randint(1, 999) * 10**k)
    if c < .65: return r.choice([MAXU, MAXU - 1, 2**127, 2**127 - 1, 10**38, 10**38 - 1, 0])
    return r.getrandbits(r.choice([128, 127, 64, 32]))


def rd(r):
    return r.choice([r.randint(0, 18), r.randint(0, 40), r.randint(0, 255), 0, 11, 38, 39, 254, 255])


def show(m, d):
    s = str(m).rjust(d + 1, "0")
    return s if d == 0 else s[:-d] + "." + s[-d:]


def rtext(r):
    c = r.random()
    if c < .15:
        s = "".join(r.choice("0123456789._ -+eE\t") for _ in range(r.randint(0, 12)))
    elif c < .6:
        s = show(rm(r), rd(r))
    elif c < .7:
        s = r.choice(["", "0", "00", "1"]) + "." + "".join(r.choice("00019") for _ in range(r.choice([250, 253, 254, 255, 256, 257])))
    elif c < .8:
        s = "0" * r.randint(0, 260) + show(rm(r), r.randint(0, 5))
    elif c < .9:
        s = str(r.choice([MAXU, MAXU + 1, MAXU * 10, MAXU // 10, MAXU // 10 + 1]))
        k = r.randint(0, len(s))
        s = s[:k] + "." + s[k:]
    else:
        s = show(rm(r), rd(r))
        s += "0" * r.randint(0, 30) if "." in s else ""
    x = r.random()
    if x < .15: s = " " * r.randint(0, 2) + s + " " * r.randint(0, 3)
    elif x < .25:
        k = r.randint(0, len(s))
        s = s[:k] + r.choice("_ .-+a\u0660\u00a0") + s[k:]
    return mbt.byt(s.encode())


def acts(r, n):
    out = []
    for _ in range(n):
        op = r.choice(["parse", "parse", "show", "with_decimals", "without_padding", "to_amount", "from_fixed", "from_fixed", "into_fixed",
                       "sfrom_fixed", "sinto_fixed", "sub", "sub", "is_same", "rpc_out", "rpc_in_decimal"])
        a = {"op": op}
        if op in ("parse",): a.update(s=rtext(r))
        elif op in ("show", "without_padding"): a.update(m=mbt.big(rm(r)), d=rd(r))
        elif op in ("with_decimals", "to_amount"):
            d = rd(r)
            a.update(m=mbt.big(rm(r)), d=d, n=min(255, max(0, d + r.randint(-5, 40))) if r.random() < .7 else rd(r))
        elif op in ("from_fixed", "rpc_in_decimal"): a.update(s=rtext(r), n=rd(r))
        elif op == "into_fixed": a.update(m=mbt.big(rm(r)), n=rd(r))
        elif op == "rpc_out": a.update(m=mbt.big(rm(r)), n=r.choice([0, 2, 11, 18, 38, 200]), full=r.random() < .5)
        elif op == "sfrom_fixed":
            if r.random() < .5:
                n = rd(r)
                v = rm(r)
                a.update(s=mbt.byt((r.choice(["-", "", "-", "--", "+"]) + show(v, n)).encode()), n=n)
            else: a.update(s=rtext(r), n=rd(r))
        elif op == "sinto_fixed": a.update(v=mbt.big(r.choice([-2**127, 2**127 - 1, rm(r) >> 1, -(rm(r) >> 1)])), n=rd(r))
        elif op in ("sub", "is_same"):
            m, d = rm(r), rd(r)
            c = r.random()
            if c < .4:
                k = r.randint(0, 6)
                m2, d2 = min(MAXU, m * 10**k + r.randint(-1, 1) * 10**k), min(255, d + k)
                m2 = max(0, m2)
            elif c < .6: m2, d2 = m, d
            else: m2, d2 = rm(r), rd(r)
            a.update(m=mbt.big(m), d=d, m2=mbt.big(m2), d2=d2)
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-num")
    puremod.mc(ctx, "drv-num", "decimals", "DecimalsMC",
               ctx.pick({"LEN": 4, "MANT": 11, "RICH": "FALSE"}, {"LEN": 5, "MANT": 101, "RICH": "TRUE"}),
               ["RoundTrip", "SRoundTrip", "ShowParses", "ExactValue"])
    puremod.rnd(ctx, "drv-num", "decimals", "DecimalsTrace", acts(ctx.rng, ctx.pick(4000, 40000)))

import mbt, puremod
MAXU, MAXS, MINS = 2**128 - 1, 2**127 - 1, -2**127


def ru(r):
    c = r.random()
    if c < .25: return r.randint(0, 10)
    if c < .45: return r.choice([MAXU, MAXU - r.randint(0, 3), MAXS, MAXS + 1, MAXS + r.randint(0, 3), 2**64, 2**64 - 1, 2**r.randint(0, 127)])
    return r.getrandbits(r.choice([128, 128, 127, 96, 65, 64, 63, 32, 8]))


def rs(r):
    c = r.random()
    if c < .2: return r.randint(-10, 10)
    if c < .4: return r.choice([MAXS, MINS, MAXS - r.randint(0, 3), MINS + r.randint(0, 3), 2**63, -2**63, -2**64, 2**64])
    return max(MINS, min(MAXS, r.choice([-1, 1]) * r.getrandbits(r.choice([127, 127, 126, 96, 64, 63, 32, 8]))))


def near(r, x, lo, hi, g):
    """a partner of x whose sum, difference or product with x lies at a bound of the range"""
    c = r.random()
    if c < .15: return hi - x + r.randint(-1, 1)
    if c < .3: return x - hi + r.randint(-1, 1)
    if c < .4: return lo - x + r.randint(-1, 1)
    if c < .5: return x + r.randint(-1, 1)
    if c < .65 and x: return hi // x + r.randint(-1, 1)
    if c < .7 and x: return -(hi // x) + r.randint(-1, 1)
    return g(r)


def acts(r, n):
    out = []
    B = mbt.big
    for _ in range(n):
        if r.random() < .6:
            x = ru(r)
            y = min(MAXU, max(0, near(r, x, 0, MAXU, ru)))
            op = r.choice(["add", "sub", "mul", "div", "rem", "and", "or", "xor", "and_assign", "or_assign", "xor_assign", "not",
                           "shl", "shr", "to_signed", "signed_from_unsigned", "abs_diff", "non_zero", "cmp", "sum", "sum_macro", "mul", "add", "sub"])
            a = {"t": "u", "op": op}
            if op in ("shl", "shr"): a.update(a=B(x), n=r.choice([r.randint(0, 130), 2**31 - 1]))
            elif op == "sum": a.update(l=[B(ru(r)) for _ in range(r.randint(0, 5))] if r.random() < .5 else [B(x), B(y)])
            elif op == "sum_macro":
                l = [x, y] + [ru(r) for _ in range(r.randint(0, 2))]
                a.update(l=[B(v) for v in l])
            elif op in ("not", "to_signed", "signed_from_unsigned", "non_zero"): a.update(a=B(x))
            else: a.update(a=B(x), b=B(y))
        else:
            x = rs(r)
            y = min(MAXS, max(MINS, near(r, x, MINS, MAXS, rs)))
            op = r.choice(["add", "sub", "mul", "div", "rem", "neg", "to_unsigned", "unsigned_from_signed", "cmp", "sum"])
            a = {"t": "s", "op": op}
            if op == "sum": a.update(l=[B(x), B(y)] + [B(rs(r)) for _ in range(r.randint(0, 3))])
            elif op in ("neg", "to_unsigned", "unsigned_from_signed"): a.update(a=B(x))
            else:
                if op == "rem" and x == MINS and y == -1: y = 1   # exact 0 or "none": both are right
                a.update(a=B(x), b=B(y))
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-num")
    puremod.mc(ctx, "drv-num", "amounts", "AmountsMC", {"RICH": ctx.pick("FALSE", "TRUE")}, ["InRange", "Laws"])
    puremod.rnd(ctx, "drv-num", "amounts", "AmountsTrace", acts(ctx.rng, ctx.pick(6000, 60000)))

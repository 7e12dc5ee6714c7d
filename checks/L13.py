import mbt, puremod
M128, M64 = 2**128 - 1, 2**64 - 1
CU = 10**11


def sched(r):
    rate = lambda: r.choice([0, 0, 1, CU, r.randint(0, 300) * CU, r.randint(0, 10**15), r.getrandbits(r.choice([40, 64, 100]))])
    top = r.choice([10, 1000, 10**6, 10**12, M64])
    hs = sorted(set(r.randint(0, top) for _ in range(r.choice([0, 1, 2, 3, 5, 12]))))
    return {"init": r.choice([0, 4 * 10**8 * CU, r.randint(0, 10**20), r.getrandbits(127)]), "first": rate(), "periods": [[h, rate()] for h in hs]}


def wrap(s):
    return {"init": mbt.big(s["init"]), "first": mbt.big(s["first"]), "periods": [[mbt.big(h), mbt.big(x)] for h, x in s["periods"]]}


def show(v, r):
    s = str(v // CU)
    f = str(v % CU).rjust(11, "0").rstrip("0")
    return s + ("." + f if f else r.choice(["", "", ".0", "."]))


def acts(r, n):
    out = []
    for _ in range(n):
        op = r.choice(["at", "at", "at", "show", "parse", "parse", "net"])
        s = sched(r)
        if op == "at":
            h = r.choice([0, 1, M64, r.getrandbits(64), r.randint(0, 10**6)] + [x[0] + d for x in s["periods"] for d in (-1, 0, 1, 2)])
            out.append({"op": op, **wrap(s), "h": mbt.big(min(M64, max(0, h)))})
        elif op == "show": out.append({"op": op, **wrap(s)})
        elif op == "net":
            sp = r.choice([120, 120, r.randint(1, 4000)])
            y = 31536000 // sp
            out.append({"op": op, "spacing": sp, "h": mbt.big(max(1, r.choice([r.randint(1, 11 * y), y * r.randint(1, 11) + r.randint(-1, 2), M64])))})
        else:
            if r.random() < .3: r.shuffle(s["periods"])
            sep = lambda: r.choice([",", ",", ",", " , ", ", ", ",\t"])
            t = show(s["init"], r) + r.choice(["+", "+", " +"]) + show(s["first"], r) + "".join(sep() + f"{h}:+{show(x, r)}" for h, x in s["periods"])
            if r.random() < .4:
                k = r.randint(0, len(t))
                t = t[:k] + r.choice(["", "+", ",", ":", " ", "-", ".", "0", "9" * 20, "x", ":+"]) + t[k + r.choice([0, 0, 1]):]
            if r.random() < .1 and s["periods"]: t += f",{s['periods'][0][0]}:+7"
            out.append({"op": op, "s": mbt.byt(t.encode())})
    return out


def run(ctx):
    mbt.build("drv-chain")
    puremod.mc(ctx, "drv-chain", "emission", "EmissionMC", ctx.pick({"PER": 3, "RICH": "FALSE"}, {"PER": 4, "RICH": "TRUE"}), ["Laws"])
    puremod.rnd(ctx, "drv-chain", "emission", "EmissionTrace", acts(ctx.rng, ctx.pick(3000, 30000)))

import mbt, puremod, terms
KT = {"TraceInit0": "<- KSt0", "TraceSteps": "<- KSteps", "TraceExpected": "<- KExpected"}
MAX = 2**31 - 1


def idx(r): return r.choice([0, 0, 1, 2, 255, 256, 65536, 2**24, 2**30, MAX - 1, MAX, r.randint(0, MAX), r.randint(0, 10**r.randint(1, 9))])
def num(r, ph=.5): return {"i": idx(r), "h": r.random() < ph}


def text(r):
    def child():
        t = str(r.choice([idx(r), idx(r), idx(r), MAX + r.randint(1, 3), 2**32 - 1, 2**32, 2**32 + r.randint(0, 5), 10**r.randint(9, 25)])) + r.choice(["", "", "'", "h"])
        c = r.random()
        if c < .04: t = "0" + t
        elif c < .06: t = "+" + t
        elif c < .08: t = t + r.choice("hH' ")
        elif c < .09: t = ""
        elif c < .1: t = "-" + t
        elif c < .12: t = t[:1] + r.choice("_ hx٣") + t[1:]
        return t
    n = r.choice([0, 1, 2, 3, 5, 8])
    t = "/".join(["m"] + [child() for _ in range(n)])
    c = r.random()
    if c < .03: t = t.upper()
    elif c < .05: t = t + "/"
    elif c < .07: t = "/" + t
    elif c < .09: t = t.replace("m/", "", 1)
    elif c < .1: t = t.replace("m", r.choice(["M", "mm", "", " m"]))
    return t


def pure(r, n):
    out = []
    for _ in range(n):
        op = r.choice(["path_parse"] * 4 + ["child_parse"] * 2 + ["path_text", "path_codec", "path_decode", "path_new", "path_diff", "child_text", "child_next", "child_be", "u31_decode"])
        a = {"op": op, "i": 0, "h": False}
        path = [num(r) for _ in range(r.choice([0, 1, 2, 3, 5, 5, 10, 40]))]
        if op in ("path_parse", "child_parse"):
            t = text(r)
            a["s"] = mbt.byt((t if op[0] == "p" else t.split("/")[-1]).encode())
        elif op in ("path_text", "path_codec", "path_new"): a["path"] = path
        elif op == "path_decode":
            b = bytearray([len(path)]) + b"".join(((c["i"] + (2**31 if c["h"] else 0)).to_bytes(4, "big")) for c in path)
            c = r.random()
            if c < .2: b = b[:r.randint(0, len(b))]
            elif c < .3: b += r.randbytes(r.randint(1, 4))
            elif c < .5: b[r.randrange(len(b))] ^= 1 << r.randint(0, 7)
            a["b"] = mbt.byt(b)
        elif op == "path_diff":
            q = path[:r.randint(0, len(path))]
            if r.random() < .3 and q:
                j = r.randrange(len(q)); q = [dict(x) for x in q]
                if r.random() < .5: q[j]["h"] = not q[j]["h"]
                else: q[j]["i"] ^= 1
            a.update(path=path, sub=q)
        elif op == "u31_decode": a["b"] = mbt.byt(r.randbytes(r.choice([4, 4, 4, 4, 3, 5])))
        else: a.update(num(r))
        out.append(a)
    return out


def history(r, n, deep):
    """A few seeds and paths reached in many ways, so that equal keys meet."""
    seeds = [mbt.byt(r.randbytes(r.choice([0, 1, 16, 32, 64, 65, 128, 129]))) for _ in range(2)]
    targets = [[num(r, .3) for _ in range(r.randint(1, 6))] for _ in range(3)]
    for t in list(targets):           # near misses
        u = [dict(x) for x in t]
        j = r.randrange(len(u))
        if r.random() < .5: u[j]["h"] = not u[j]["h"]
        else: u[j]["i"] ^= 1 << r.randint(0, 30)
        targets.append(u)
    targets.append([num(r, .1) for _ in range(deep)])
    out = []
    while len(out) < n:
        t = r.choice(targets[:-1] if len(out) > 8 else targets)
        out.append({"op": "master", "kind": r.choice(["key", "vrf"]), "seed": r.choice(seeds)})
        pos, pub = 0, False
        while pos < len(t):
            c = r.random()
            if c < .1 and not pub: out.append({"op": "neuter"}); pub = True
            elif c < .2: out.append({"op": "codec"})
            elif c < .25: out.append({"op": "derive", "path": r.choice([t[:pos], t[:r.randint(0, pos)], r.choice(targets), t[:pos] + [num(r, 1)] if pub else []])})
            elif c < .6 or len(t) > 20: 
                q = len(t) if len(t) > 20 and r.random() < .7 else r.randint(pos + 1, len(t))
                out.append({"op": "derive", "path": t[:q]})
                if not (pub and any(x["h"] for x in t[pos:q])): pos = q
                else: break
            else:
                out.append({"op": "child", **t[pos]})
                if pub and t[pos]["h"]: break
                pos += 1
        if len(t) >= 254: out += [{"op": "child", "i": 1, "h": False}] * 3
    return out


def run(ctx):
    mbt.build("drv-crypto")
    puremod.mc(ctx, "drv-crypto", "hdkd", "PathsMC", {"MAXLEN": ctx.pick(4, 5), "RICH": ctx.pick("FALSE", "TRUE")}, ["RoundTrips", "OneText"])
    puremod.rnd(ctx, "drv-crypto", "hdkd", "PathsTrace", pure(ctx.rng, ctx.pick(4000, 40000)))
    tr = mbt.explore(ctx, "KeyTreesMC", {"MAXD": ctx.pick(2, 3), "RICH": ctx.pick("FALSE", "TRUE")}, ["Confluent", "NeuterCommutes"], properties=["OneWay", "OnlyDown"])
    names = terms.Names()
    mbt.replay(ctx, "drv-crypto", "hdkd", mbt.walks(ctx, tr), what="keys derived along a path", cmp=names.cmp(["pt", "cc", "sk"]))
    deep = [4, 20, 254, 255] + [r for r in range(40, 40 + ctx.pick(4, 60))]
    mbt.run_traces(ctx, "drv-crypto", "hdkd", "KeyTreesTrace", [history(ctx.rng, 60, d) for d in deep], KT, post=terms.tokens(["pt", "cc", "sk"]), per_file=200)

import mbt, puremod


def cmp(e, o):
    if e.get("k") == "any": return o.get("k") in ("addr", "bad")
    if e.get("k") in ("conv", "list"): return o.get("k") == e["k"] and len(o["v"]) == len(e["v"]) and all(mbt.match(x, y) for x, y in zip(e["v"], o["v"]))
    return mbt.match(e, o)


def acts(r, n):
    word = lambda: r.choice([0, 0, 0, 1, r.randrange(65536)])
    def host(names=True):
        c = r.random()
        if c < .35: return {"w": [r.choice([0, 1, 9, 10, 99, 100, 255, r.randrange(256)]) for _ in range(4)]}
        if c < .8 or not names: return {"w": [word() for _ in range(8)]} if c < .75 else {"w": [0] * 5 + [65535, word(), word()]}
        return {"d": [ord(x) for x in ".".join("".join(r.choice("abzAZ019") for _ in range(r.randint(1, 12))) for _ in range(r.randint(1, 4))) + "." + r.choice(["com", "local", "x"])]}
    def text():
        c = r.random()
        h = host()
        if "d" in h: t = "".join(map(chr, h["d"]))
        elif len(h["w"]) == 4: t = ".".join(map(str, h["w"]))
        else:
            p = [("%x" if r.random() < .7 else "%04X") % x for x in h["w"]]
            if r.random() < .6:
                i = r.randrange(8); j = r.randint(i, 8)
                t = ":".join(p[:i]) + "::" + ":".join(p[j:])
            else: t = ":".join(p)
            if r.random() < .2: t = t[:t.rfind(":") + 1] + ".".join(str(r.randrange(300)) for _ in range(4))
            if r.random() < .5: t = "[" + t + "]"
        if c < .6: t += ":" + str(r.choice([0, 1, 80, 65535, 65536, 70000, r.randrange(65536)]))
        t = list(map(ord, t))
        if t and r.random() < .4:
            m = r.random(); i = r.randrange(len(t))
            if m < .4: t[i] = ord(r.choice("0:.%[]-_ fgAé/"[:12]))
            elif m < .7: del t[i]
            else: t.insert(i, ord(r.choice("0:.[]-_ fg1")))
        return t
    for _ in range(n):
        c = r.random()
        port = r.choice([[], [0], [65535], [r.randrange(65536)]])
        if c < .6: yield {"op": "parse", "ty": r.choice(["ip_or_sock", "addr", "opt", "port", "opt", "domain"]), "t": text()}
        elif c < .8:
            ty = r.choice(["ip_or_sock", "addr", "port", "opt"])
            yield {"op": "show", "ty": ty, "host": host(ty != "ip_or_sock"), "port": [] if ty == "addr" else port or [5] if ty == "port" else port}
        elif c < .9: yield {"op": "default", "host": host(False), "port": port, "p": r.randrange(65536)}
        elif c < .95: yield {"op": "conv", "host": host(False), "p": r.randrange(65536)}
        else: yield {"op": "resolve", "first": r.random() < .5, "xs": [{"host": host(False), "port": r.choice([[], [9]])} for _ in range(r.randrange(5))]}


def run(ctx):
    mbt.build("drv-rpc")
    for f, n in [(1, ctx.pick(4, 5)), (2, ctx.pick(8, 9)), (3, 0)]:
        puremod.mc(ctx, "drv-rpc", "addrs", "AddrsMC", {"FAM": f, "N": n}, ["Agree"], tag=str(f), cmp=cmp)
    puremod.rnd(ctx, "drv-rpc", "addrs", "AddrsTrace", list(acts(ctx.rng, ctx.pick(3000, 40000))))

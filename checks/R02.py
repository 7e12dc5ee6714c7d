import mbt, puremod


def hexish(r, d):
    t = [ord(c) for c in "".join(("%02X" if r.random() < .3 else "%02x") % x for x in d)]
    if t and r.random() < .4:
        m = r.random()
        if m < .4: t[r.randrange(len(t))] = r.choice([47, 58, 64, 71, 96, 103, 32, 48, 102, 70])
        elif m < .7: del t[r.randrange(len(t))]
        else: t.insert(r.randrange(len(t) + 1), r.choice([48, 120, 32, 10, 102]))
    return t


def acts(r, n):
    chars = ["a", "0", "f", "\0", "\x7f", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\"", "\\", "\n"]
    for _ in range(n):
        k = r.random()
        size = r.choice([0, 1, 2, 3, 5, 17, 60])
        raw = [r.randrange(256) for _ in range(size)]
        text = list("".join(r.choice(chars) for _ in range(size)).encode())
        d = raw if r.random() < .3 else text
        if d and r.random() < .5:
            i = r.randrange(len(d))
            d = list(d); d[i] = (d[i] ^ (1 << r.randrange(8))) if r.random() < .7 else r.choice([0xc0, 0xed, 0xf4, 0xa0, 0x90])
        if k < .25: yield {"op": "str_ser", "d": d}
        elif k < .4: yield {"op": "hex_ser", "d": d}
        elif k < .6: yield {"op": r.choice(["hex_de", "hex_parse"]), "t": hexish(r, raw)}
        elif k < .65: yield {"op": "str_bare", "t": text}
        else:
            o = lambda x: {"some": x} if r.random() < .8 else {"none": True} if r.random() < .5 else {"null": True}
            h = hexish(r, text if r.random() < .7 else raw)
            if r.random() < .3: h = [ord(c) for c in "".join("%02x" % x for x in text)]
            yield {"op": "str_obj", "text": o(text), "hex": o(h)}


def run(ctx):
    mbt.build("drv-rpc")
    puremod.mc(ctx, "drv-rpc", "texts", "RpcTextsMC", {"N": ctx.pick(2, 3)}, ["RoundTrip", "Stable"])
    puremod.rnd(ctx, "drv-rpc", "texts", "RpcTextsTrace", list(acts(ctx.rng, ctx.pick(2500, 30000))))

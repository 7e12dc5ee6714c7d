import hashlib
import mbt, puremod
CTX = [dict(el=5, st=7, pk=3, sz=24), dict(el=80, st=30, pk=4, sz=400), dict(el=520, st=1000, pk=20, sz=10000)]
HASH = {166: ("RIPEMD160", lambda d: hashlib.new("ripemd160", d).digest()), 167: ("SHA1", lambda d: hashlib.sha1(d).digest()),
        168: ("SHA256", lambda d: hashlib.sha256(d).digest()),
        169: ("HASH160", lambda d: hashlib.new("ripemd160", hashlib.sha256(d).digest()).digest()),
        170: ("HASH256", lambda d: hashlib.sha256(hashlib.sha256(d).digest()).digest())}
OPS = [79, 80, *range(81, 97), 97, 98, *range(99, 136), 135, 136, *range(139, 147), *range(147, 166), *range(166, 176), 176, 177, 178, 185, 186, 255]
STACKY = [*range(107, 126), 130, 135, 118, 118, 121, 122]
NUMERIC = [*range(139, 166)]


def num(i):
    if i == 0: return b""
    a, o = abs(i), bytearray()
    while a: o.append(a & 255); a >>= 8
    if o[-1] & 128: o.append(128 if i < 0 else 0)
    elif i < 0: o[-1] |= 128
    return bytes(o)


def push(d):
    n = len(d)
    return (bytes([n]) if n <= 75 else bytes([76, n]) if n < 256 else b"\x4d" + n.to_bytes(2, "little") if n < 65536 else b"\x4e" + n.to_bytes(4, "little")) + d


def item(r, el=5):
    c = r.random()
    if c < .25: return num(r.choice([0, 1, 2, 3, 4, -1, 16, 17, 127, 128, 255, 256, -128, 2 ** 31 - 1, -2 ** 31 + 1, 2 ** 31, r.randint(-2 ** 32, 2 ** 32)]))
    if c < .4: return bytes([1, r.choice([5, 6])])
    if c < .55: return bytes([r.choice([5, 6]), *r.choice([(255, 255), (r.randint(0, 30), r.choice([255, r.randint(0, 12)]))])])
    if c < .6: return r.choice([b"\x00", b"\x80", b"\x00\x80", b"\x02\x09", b"\x01\x00"])
    return r.randbytes(r.choice([0, 1, 1, 2, 3, 4, 5, 5, el - 1, el, el, el + 1]) if r.random() < .5 else r.randint(0, 5))


def minpush(d):
    if len(d) == 1 and 1 <= d[0] <= 16: return bytes([80 + d[0]])
    if d == b"\x81": return b"\x4f"
    return push(d)


def program(r, c, h):
    out = b""
    style = r.random()
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 20, 60]) if c["sz"] > 24 else r.randint(0, 12)):
        k = r.random()
        if k < .42: out += (minpush if r.random() < .97 else push)(item(r, c["el"]))
        elif k < .46: out += bytes([r.randint(79, 96)]) if r.random() < .9 else b"\x00"
        elif k < .5:
            d = r.randbytes(r.randint(0, min(75, c["el"])))
            op = r.choice(list(HASH))
            name, f = HASH[op]
            h.append({"f": name, "i": mbt.byt(d), "o": mbt.byt(f(d))})
            out += minpush(d) + bytes([op])
        elif k < .56:
            out += bytes([r.choice([99, 100, 103, 104, 99, 103, 104])])
        elif k < .6: out += bytes([r.choice([0, 81])]) + bytes([r.choice([99, 100])])
        elif k < .62: out += bytes([r.choice([104, 104, 103])])
        elif k < .66: out += bytes([r.choice([172, 173, 174, 175, 171])])
        elif k < .7:
            # a whole multisig
            nk = r.randint(0, 5); ns = r.randint(0, nk) if r.random() < .9 else nk + 1
            keys = [bytes([1, r.choice([5, 6, 7])]) if r.random() < .9 else r.choice([b"\x02\x01", b"\x03"]) for _ in range(nk)]
            sigs = [bytes([r.choice([5, 6, 7]), 255, 255]) if r.random() < .9 else item(r) for _ in range(ns)]
            out += (b"\0" if r.random() < .9 else b"\x51") + b"".join(push(x) for x in sigs) + minpush(num(ns)) + b"".join(push(x) for x in keys) + minpush(num(nk)) + bytes([r.choice([174, 175])])
        elif k < .73:
            out += push(r.choice([num(r.randint(0, 120)), num(r.choice([2 ** 31, 2 ** 39 - 1, 2 ** 39, -1]))])) + bytes([r.choice([177, 178]), 117])
        elif k < .85: out += bytes([r.choice(STACKY)])
        elif k < .95: out += bytes([r.choice(NUMERIC)])
        elif style < .3: out += bytes([r.choice(OPS)])
        elif style < .4: out += r.randbytes(1)
    if r.random() < .03: out = out[:-1]
    return out[:c["sz"] + 1]


def signed(r):
    """a script with separators in branches taken or not, and the signature that fits the last separator executed (or nearly)"""
    out, ops, sub, sep = b"", 0, 0, 255
    def add(b, n=1, live=True):
        nonlocal out, ops, sub, sep
        for x in ([b] if n == 1 else b):
            out += x
            if x == b"\xab" and live: sub, sep = len(out), ops
            ops += 1
    def block(live, depth):
        for _ in range(r.randint(0, 4)):
            k = r.random()
            if k < .3: add(b"\x61", 1, live)
            elif k < .55: add(b"\xab", 1, live)
            elif k < .7: add(push(r.randbytes(r.randint(2, 20)))); add(b"\x75")
            elif depth < 3:
                c, neg = r.random() < .5, r.random() < .5
                t = r.random() < .5
                if live: add(b"\x51" if t else b"\x00")
                add(b"\x64" if neg else b"\x63"); b = live and (t != neg); block(b, depth + 1)
                if c: add(b"\x67"); block(live and not b, depth + 1)
                add(b"\x68")
    block(True, 0)
    tail = r.choice([b"\xac", b"\xac", b"\xad\x51", b"\xac\x61\x61"])
    s = out + tail
    a, b = (len(s) - sub) % 256, sep % 256
    if r.random() < .4: a, b = r.choice([(a + 1, b), (a, b + 1), (a, b - 1), (a - 1, b), (a, 255)])
    return [bytes([5, a % 256, b % 256]), b"\x01\x05"], s


def acts(r, n, longer=False):
    out = []
    for _ in range(n):
        c = r.choice(CTX[:2] if r.random() < .9 else CTX[2:])
        cc = {**c, "mp": r.random() < .7, "mi": r.random() < .6, "lock": mbt.big(r.choice([0, 50, 100, 2 ** 31, 2 ** 38])), "seq": mbt.big(r.choice([0, 50, 2 ** 31]))}
        h = []
        k = r.random()
        if k < .08:
            st, s = signed(r)
            a = {"op": "run", "c": {**cc, "el": 80, "st": 30, "pk": 4, "sz": 400}, "st": [mbt.byt(x) for x in st], "s": mbt.byt(s)}
        elif k < .78:
            st = [item(r) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 6, 7, 8]) if c["st"] < 1000 else r.choice([0, 2, 999, 1000]))]
            a = {"op": "run", "c": cc, "st": [mbt.byt(x) for x in st], "s": mbt.byt(program(r, c, h))}
        elif k < .86:
            s = b"".join(r.choice([minpush, push])(item(r, c["el"])) if r.random() < .93 else bytes([r.choice([79, 80, 81, 96, 97, 118])]) for _ in range(r.randint(0, 9)))
            a = {"op": "pushes", "c": cc, "s": mbt.byt(s[:c["sz"] + 1])}
        elif k < .9: a = {"op": "clean", "st": [mbt.byt(item(r)) for _ in range(r.choice([0, 1, 1, 1, 2]))]}
        else:
            # witness and locking script of a standard form
            d = r.randbytes(r.randint(0, 5))
            key, sig = bytes([1, 5]), bytes([r.choice([5, 5, 6]), 255, 255])
            f = r.random()
            if f < .3:
                hv = HASH[169][1](d); h.append({"f": "HASH160", "i": mbt.byt(d), "o": mbt.byt(hv)})
                if r.random() < .3: hv = r.randbytes(20)
                s, w = b"\xa9\x14" + hv + b"\x87", minpush(d)
            elif f < .6:
                hv = HASH[169][1](key); h.append({"f": "HASH160", "i": mbt.byt(key), "o": mbt.byt(hv)})
                s, w = b"\x76\xa9\x14" + hv + b"\x88\xac", push(sig) + push(key)
            elif f < .8: s, w = push(key) + b"\xac", push(sig)
            else: s, w = program(r, c, h), b"".join(minpush(item(r)) for _ in range(r.randint(0, 3)))
            if r.random() < .1: w += bytes([r.choice([97, 81, 118])])
            a = {"op": "witness", "c": {**cc, "el": 80, "st": 30, "pk": 4, "sz": 400}, "w": mbt.byt(w), "s": mbt.byt(s)}
        a["h"] = h
        out.append(a)
    return out


def agrees(e, o):
    return (e == {"k": "any"} and o.get("k") in ("stack", "err")) or mbt.match(e, o)


def run(ctx):
    mbt.build("drv-script")
    rich = ctx.pick("FALSE", "TRUE")
    fams = mbt.explore_many(ctx, [dict(module="ScriptsRunMC", consts={"FAM": f, "RICH": rich}, invariants=["WithinLimits", "Advances", "NoInvention", "SameAsRun"], tag=str(f), emit_workers=3) for f in range(1, 8)])
    for f in fams:
        mbt.replay(ctx, "drv-script", "x", [[(x["a"], x["o"])] for x in f], what="run of the specified interpreter", cmp=agrees)
    puremod.rnd(ctx, "drv-script", "x", "ScriptsTrace", acts(ctx.rng, ctx.pick(5000, 60000)))
    ctx.assumptions.append("signature checking is delegated to the context; the driver's context is the abstract scheme of Scripts.tla")

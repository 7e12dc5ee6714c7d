import mbt, puremod
from I01 import num, push, minpush
EDGES = [0, 1, 2, 15, 16, 17, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520, 521, 1000]


def i64(r):
    c = r.random()
    if c < .3: v = r.randint(-300, 300)
    elif c < .7: v = (1 << r.randint(0, 63)) + r.choice([-1, 0, 1])
    else: v = r.getrandbits(r.randint(1, 63))
    return max(-2 ** 63, min(2 ** 63 - 1, v if r.random() < .5 else -v))


def data(r):
    c = r.random()
    if c < .3: return bytes([r.choice([0, 1, 2, 15, 16, 17, 127, 128, 129, 130, 255])])
    return r.randbytes(r.choice(EDGES) if c < .6 else r.randint(0, 40))


def script(r):
    s = b""
    for _ in range(r.randint(0, 8)):
        c = r.random()
        d = data(r)
        if c < .5: s += r.choice([push, minpush])(d)
        elif c < .6: s += r.choice([b"\x4c" + bytes([len(d) & 255]), b"\x4d" + len(d).to_bytes(2, "little"), b"\x4e" + len(d).to_bytes(4, "little")]) + d
        else: s += bytes([r.randint(79, 255)])
    c = r.random()
    if c < .2: s = s[: r.randint(0, len(s))]
    elif c < .3: s += r.choice([b"\x4c", b"\x4d\x05", b"\x4e\xff\xff\xff\xff", b"\x4e\0\0\0\x80", b"\x05\x01", b"\x4b"])
    return s


def step(r):
    o = r.choice(["int", "int", "scriptint", "slice", "slice_min", "opcode", "verify"])
    x = {"op": o}
    if o in ("int", "scriptint"): x["v"] = mbt.big(i64(r))
    elif o in ("slice", "slice_min"): x["d"] = mbt.byt(data(r))
    elif o == "opcode": x["c"] = r.choice([0, 79, 80, 81, 97, 135, 136, 156, 172, 174, r.randint(79, 255)])
    return x


def form(r):
    h = lambda n: r.randbytes(n)
    n = r.randint(2, 40)
    s = r.choice([lambda: b"\x76\xa9\x14" + h(20) + b"\x88\xac", lambda: b"\xa9\x14" + h(20) + b"\x87", lambda: b"\x21" + h(33) + b"\xac", lambda: b"\x41" + h(65) + b"\xac",
                  lambda: b"\0\x14" + h(20), lambda: b"\0\x20" + h(32), lambda: bytes([r.choice([0, 81, 96, 80, 97]), n]) + h(n), lambda: b"\x6a" + push(h(4)), lambda: script(r)])()
    s = bytearray(s)
    c = r.random()
    if c < .15 and s: del s[r.randrange(len(s))]
    elif c < .3: s.insert(r.randint(0, len(s)), r.getrandbits(8))
    elif c < .55 and s: s[r.choice([0, 1, 2, -1, -2, 3]) % len(s)] = r.choice([0, 0x14, 0x20, 0x21, 0x41, 0x4c, 0x51, 0x60, 0x87, 0x88, 0xac, 0xad, 0xa9, 0x76, r.getrandbits(8)])
    return bytes(s)


def acts(r, n):
    out = []
    for _ in range(n):
        o = r.choice(["scriptint", "readint", "readint", "readbool", "readuint", "build", "build", "build", "parse", "parse", "parse", "asm", "forms", "forms", "p2pk", "p2pkh", "p2sh", "new_op_return"])
        a = {"op": o}
        if o == "scriptint": a["v"] = mbt.big(i64(r))
        elif o == "readint": a.update(s=mbt.byt(num(i64(r)) if r.random() < .5 else r.randbytes(r.randint(0, 9))), n=r.choice([4, 4, 5, 8]))
        elif o == "readbool": a["s"] = mbt.byt(bytes(r.choice([0, 0, 0, 128, 1]) for _ in range(r.randint(0, 9))))
        elif o == "readuint": a.update(s=mbt.byt(r.randbytes(r.randint(0, 9))), n=r.choice([1, 2, 4, 3]))
        elif o == "build": a.update({"from": mbt.byt(script(r) if r.random() < .4 else b"")}, x=[step(r) for _ in range(r.randint(0, 7))])
        elif o == "parse": a.update(s=mbt.byt(script(r)), min=r.random() < .5)
        elif o == "asm": a["s"] = mbt.byt(script(r))
        elif o == "forms": a["s"] = mbt.byt(form(r))
        else: a["s"] = mbt.byt(r.randbytes(r.choice([20, 32, 33, 65])) if r.random() < .5 else data(r))
        out.append(a)
    return out


def agrees(e, o):
    if e.get("k") == "words" and e["v"][-1] == "truncated":
        v = o.get("v", [])
        return o.get("k") == "words" and v[-1:] == ["truncated"] and len(v) >= len(e["v"]) and v[: len(e["v"]) - 1] == e["v"][:-1]
    return mbt.match(e, o)


def run(ctx):
    mbt.build("drv-script")
    puremod.mc(ctx, "drv-script", "x", "ScriptsMC", {"RICH": ctx.pick("FALSE", "TRUE")}, ["NumbersRoundTrip", "BuildParses", "MinimalBuildsPass", "StrictIsCanonical"], cmp=agrees)
    puremod.rnd(ctx, "drv-script", "x", "ScriptsTrace", acts(ctx.rng, ctx.pick(4000, 40000)))

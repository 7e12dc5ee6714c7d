import hashlib, hmac, mbt
HT = {"TraceInit0": "<- HSt0", "TraceSteps": "<- HSteps", "TraceExpected": "<- HExpected"}
ALGS = ["blake2b", "blake2b32", "sha1", "sha256", "sha3", "ripemd160", "sha256ripemd160"]


def data(d): return b"".join(bytes([b]) * n for b, n in d)


def digest(t):
    """The digest a term stands for, by an implementation that is independent of the code under test."""
    g, d = t["alg"], data(t["data"])
    if g == "mac": return hmac.new(data(t["key"]), d, "sha512").digest()
    if g == "blake2b": return hashlib.blake2b(d).digest()
    if g == "blake2b32": return hashlib.blake2b(d).digest()[:32]
    if g == "sha256ripemd160": return hashlib.new("ripemd160", hashlib.sha256(d).digest()).digest()
    return hashlib.new({"sha3": "sha3_512"}.get(g, g), d).digest()


def cmp(e, o):
    return o["k"] == "digest" and digest(e["v"]) == bytes(o["v"]) if e["k"] == "digest" else mbt.match(e, o)


def join(ds):
    out = []
    for d in ds:
        for b, n in d:
            if n and out and out[-1][0] == b: out[-1] = [b, out[-1][1] + n]
            elif n: out.append([b, n])
    return out


def name_digests(trace):
    """Observed digests are replaced by the term they stand for: some range of consecutive pieces, under any algorithm."""
    pieces = []
    for x in trace:
        pieces += [x["a"][f] for f in ("d", "e") if f in x["a"] and x["a"]["op"] != "once"]
    tab = {}
    # pieces that follow each other, and pieces that follow what was brought back
    now, kept, honest = [], None, []
    for x in trace:
        a = x["a"]
        if a["op"] in ("write", "write2"): now = now + [a[f] for f in ("d", "e") if f in a]
        elif a["op"] == "save": kept = now
        elif a["op"] == "back": now = kept
        elif a["op"] in ("new", "clear", "final"):
            honest.append(join(now))
            now = []
    ranges = honest + [join(pieces[i:j]) for i in range(len(pieces) + 1) for j in range(i, len(pieces) + 1)]
    for g in {x["a"]["alg"] for x in trace if "alg" in x["a"]}:
        for d in ranges + [join([x["a"]["d"]]) for x in trace if x["a"]["op"] == "once"]:
            t = {"alg": g, "key": [], "data": d}
            tab.setdefault(digest(t).hex(), []).append(t)
    for x in trace:
        o, a = x["o"], x["a"]
        if o.get("k") != "digest": continue
        v = o["v"]["$b"]
        if a["op"].startswith("mac"):
            t = {"alg": "mac", "key": join([a["key"]]), "data": join(a["ps"])}
            o["v"] = t if digest(t).hex() == v else {"alg": "unknown digest", "key": [], "data": []}
        else: o["v"] = tab.get(v, [{"alg": "unknown digest", "key": [], "data": []}])[0]
    return trace


def piece(r):
    return [[r.choice([0, 0, 1, 97, 255]), r.choice([0, 1, 1, 2, 7, 8, 63, 64, 65, 127, 128, 129, 200, 1023, r.randint(0, 3000)])] for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]


def history(r, n, big):
    g = r.choice(ALGS)
    out, saved = [{"op": "new", "alg": g}], False
    for _ in range(n):
        c = r.random()
        if c < .5: out.append({"op": "write", "d": piece(r)})
        elif c < .56: out.append({"op": "write2", "d": piece(r), "e": piece(r)})
        elif c < .72: out.append({"op": "final"})
        elif c < .78: out.append({"op": "clear"})
        elif c < .84 and g != "sha256ripemd160": out.append({"op": "save"}); saved = True
        elif c < .88 and saved: out.append({"op": "back"}); saved = False
        elif c < .93: out.append({"op": "once", "alg": r.choice(ALGS), "d": piece(r)})
        elif c < .97: out.append({"op": r.choice(["mac", "mac_split"]), "key": piece(r), "ps": [piece(r) for _ in range(r.randint(0, 4))]})
        else:
            x = r.randbytes(r.choice([0, 1, 2, 16, 32, 33, 64, 255, 256, 257]))
            y = r.choice([x, x[:-1], x + b"\0", x + x, b"\0" * len(x), bytes(b ^ (r.randrange(max(1, len(x))) == i) << r.randint(0, 7) for i, b in enumerate(x))])
            if r.random() < .5: x, y = y, x
            out.append({"op": "eq", "m": r.choice(["normal", "resistant"]), "t": r.choice([1, 8, 16, 64]), "x": mbt.byt(x), "y": mbt.byt(y)})
    if big:      # data long enough for several length counters
        out += [{"op": "clear"}, {"op": "write", "d": [[5, 2**20 + 17]]}, {"op": "final"}]
    return out


def comparisons(r, n):
    """Slices that repeat one pattern, whose lengths agree, or agree in their low bits only."""
    out = [{"op": "new", "alg": "sha1"}]
    for _ in range(n):
        p = r.randbytes(r.choice([1, 1, 2, 3, 8]))
        k = r.choice([0, 1, 2, 7, 8, 64, 255, 256, r.randint(0, 300)])
        d = r.choice([0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024])
        x, y = (p * (k + 1))[:k], (p * (k + d + 1))[:k + d]
        if y and r.random() < .3: i = r.choice([0, len(y) - 1, r.randrange(len(y))]); y = y[:i] + bytes([y[i] ^ 1 << r.randint(0, 7)]) + y[i + 1:]
        if r.random() < .5: x, y = y, x
        out.append({"op": "eq", "m": r.choice(["normal", "resistant"]), "t": r.choice([1, 8, 16, 64]), "x": mbt.byt(x), "y": mbt.byt(y)})
    return out


def run(ctx):
    mbt.build("drv-crypto")
    tr = mbt.explore(ctx, "HashingMC", {"FAM": 1, "N": ctx.pick(5, 6), "RICH": "FALSE"}, ["Normal", "SplitFree"], tag="1")
    mbt.replay(ctx, "drv-crypto", "hash", mbt.walks(ctx, tr), what="digest", cmp=cmp)
    for f, n in ((2, 1), (3, ctx.pick(3, 4))):
        tr = mbt.explore(ctx, "HashingMC", {"FAM": f, "N": n, "RICH": "TRUE"}, tag=str(f))
        mbt.replay(ctx, "drv-crypto", "hash", [[(x["a"], x["o"])] for x in tr], what="digest or comparison", cmp=cmp)
    mbt.run_traces(ctx, "drv-crypto", "hash", "HashingTrace", [history(ctx.rng, 40, i % 10 == 0) for i in range(ctx.pick(80, 800))]
                   + [comparisons(ctx.rng, 60) for _ in range(ctx.pick(15, 60))], HT, post=name_digests, per_file=900)

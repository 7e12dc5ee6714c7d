import mbt
TY = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize"]
W = {"bool": 1, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4}
FS = ["load", "store", "swap", "cas", "casw", "update", "and", "nand", "or", "xor", "inner", "add", "sub", "max", "min"]
PT = {"TraceInit0": "<- HSt0", "TraceSteps": "<- HSteps", "TraceExpected": "<- HExpected"}


def value(r, ty, pool):
    w = W.get(ty, 8)
    if ty == "bool": return bytes([r.randint(0, 1)])
    c = r.random()
    if pool and c < .5: return r.choice(pool)
    if c < .8: v = (r.choice([0, 1, 2, 127, 128, 255, 256, 2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1, 2 ** (8 * w) - 1, 2 ** (4 * w)]) + r.choice([0, 0, 1, -1])) % 2 ** (8 * w); b = v.to_bytes(w, "little")
    else: b = r.randbytes(w)
    pool.append(b)
    return b


def history(r, n):
    out, held, nxt = [], [], 0
    out.append({"op": "arr_new", "r": 2, "c": 3, "v": 0}); R, C = 2, 3
    ty, pool = None, []
    for _ in range(n):
        c = r.random()
        if ty is None or c < .06:
            ty, pool = r.choice(TY), []
            out.append({"op": "at_new", "ty": ty, "ord": r.choice(["relaxed", "acqrel", "seqcst"]), "how": r.choice(["new", "from", "default"]), "v": mbt.byt(value(r, ty, pool))})
        elif c < .6:
            f = r.choice(FS[:11] if ty == "bool" else FS)
            out.append({"op": "at", "f": f, "x": mbt.byt(value(r, ty, pool)), "y": mbt.byt(value(r, ty, pool))})
        elif c < .65: out.append({"op": r.choice(["flag_test", "flag_set", "flag_tas", "flag_new"])})
        elif c < .67:
            R, C = r.randint(0, 5), r.randint(1, 5)
            out.append({"op": "arr_new", "r": R, "c": C, "v": r.randint(0, 9)})
        elif c < .85: out.append({"op": r.choice(["arr_get", "arr_set"]), "r": r.randint(0, R), "c": r.randint(0, C), "v": r.randint(0, 99)})
        elif c < .88: out.append({"op": "arr_rows"})
        elif c < .9: out.append({"op": r.choice(["arr_clone", "arr_fill"]), "r": r.randint(0, R), "v": r.randint(0, 99)})
        elif c < .95 or not held: out.append({"op": "once_new", "i": nxt}); held.append(nxt); nxt += 1
        else: out.append({"op": r.choice(["once_drop", "once_unwind"]), "i": held.pop(r.randrange(len(held)))})
    return out


def run(ctx):
    mbt.build("drv-utils")
    for f in (1, 2):
        tr = mbt.explore(ctx, "HoldersMC", {"FAM": f, "ALL": "FALSE"}, invariants=["Rectangular"], properties=["StaysSet", "EachOnce"], tag=str(f))
        mbt.replay(ctx, "drv-utils", "holders", mbt.walks(ctx, tr), what="operations on state holders")
    tr = mbt.explore(ctx, "HoldersMC", {"FAM": 3, "ALL": ctx.pick("FALSE", "TRUE")}, tag="3")
    mbt.replay(ctx, "drv-utils", "holders", [list(zip(x["a"], x["o"])) for x in tr], what="operation of an atomic")
    mbt.run_traces(ctx, "drv-utils", "holders", "HoldersTrace", [history(ctx.rng, 300) for _ in range(ctx.pick(20, 200))], PT, per_file=1600)

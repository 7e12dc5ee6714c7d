import mbt
VIEW = {1: [[], [254], [255], [255, 255], [255, 255, 255], [255, 254]], 2: [[], [0], [0, 0], [0, 1], [1], [2]], 3: [[], [127], [127, 0], [127, 255], [128], [129]]}


def key(r, pool):
    if pool and r.random() < .6:
        k = r.choice(pool)
        c = r.random()
        if c < .5: return k
        if c < .65: return k[: r.randint(0, len(k))]
        if c < .8: return k + r.choice([b"\0", b"\xff", b"\x80", r.randbytes(2)])
        if k: return k[:-1] + bytes([(k[-1] + r.choice([1, 255])) & 255])
    k = bytes(r.choice([0, 1, 127, 128, 254, 255, r.getrandbits(8)]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 8, 33])))
    pool.append(k)
    return k


def history(r, n, reopen, nmaps):
    out, pool, tx, ros, up = [], [], False, set(), True
    B = mbt.byt
    for _ in range(n):
        if not up:
            out.append({"op": "open"}); up = True
            continue
        c = r.random()
        m = r.randint(0, nmaps - 1)
        if tx:
            if c < .45: out.append({"op": "put", "m": m, "key": B(key(r, pool)), "val": B(r.randbytes(r.choice([0, 1, 1, 4, 100, 600 if r.random() < .1 else 5])))})
            elif c < .6: out.append({"op": "del", "m": m, "key": B(key(r, pool))})
            elif c < .9: out.append({"op": r.choice(["get", "get", "prefix", "from"]), "m": m, "key": B(key(r, pool)), "i": 9})
            elif c < .97:
                out.append({"op": r.choice(["commit", "commit", "abort"])}); tx = False
            elif reopen and c < .99: out.append({"op": "close"}); up = tx = False
        elif ros:
            i = r.choice(sorted(ros))
            if c < .6: out.append({"op": r.choice(["get", "prefix", "from"]), "m": m, "key": B(key(r, pool)), "i": i})
            elif c < .75:
                j = r.choice([x for x in range(3) if x not in ros] or [None])
                if j is not None: out.append({"op": "ro", "i": j}); ros.add(j)
            elif c < .97: out.append({"op": "ro_end", "i": i}); ros.discard(i)
            elif reopen: out.append({"op": "close"}); up, ros = False, set()
        else:
            if c < .6: out.append({"op": "begin"}); tx = True
            elif c < .8: out.append({"op": "ro", "i": r.randint(0, 2)}); ros.add(out[-1]["i"])
            elif c < .93: out.append({"op": r.choice(["get", "prefix", "from"]), "m": m, "key": B(key(r, pool)), "i": 9})
            elif reopen: out.append({"op": "close"}); up = False
    for m in range(nmaps):
        if up: out.append({"op": "from", "m": m, "key": B(b""), "i": 9} if not ros else {"op": "from", "m": m, "key": B(b""), "i": min(ros)})
    return out


def run(ctx):
    mbt.build("drv-store")
    for fam in (1, 2, 3):
        big = ctx.thorough or fam == 1 + ctx.seed % 3
        tr = mbt.explore(ctx, "StorageMC", {"FAM": fam, "VALS": ctx.pick("{1}", "{1, 2}"), "READERS": "{0, 1}" if big else "{}", "REOPEN": "FALSE"},
                         invariants=["Ordered", "TailsAgree"], properties=["OnlyCommits"], tag=str(fam))
        ws = mbt.walks(ctx, tr)
        for m in ("inmemory", "sqlite-mem") if big or ctx.thorough else ("sqlite-mem" if fam % 2 else "inmemory",):
            mbt.replay(ctx, "drv-store", m, ws, setup={"keys": VIEW[fam]}, what=f"storage operations on {m}")
    tr = mbt.explore(ctx, "StorageMC", {"FAM": 2, "VALS": "{1}", "READERS": "{0, 1}", "REOPEN": "TRUE"}, invariants=["Ordered", "TailsAgree"], properties=["OnlyCommits"], tag="r")
    ws = mbt.walks(ctx, tr)
    ctx.rng.shuffle(ws)
    mbt.replay(ctx, "drv-store", "sqlite", ws if ctx.thorough else ws[:25], setup={"keys": VIEW[2]}, what="storage operations with reopening on sqlite")
    for m in ("inmemory", "sqlite-mem", "sqlite"):
        for nm in (1, 3):
            hs = [history(ctx.rng, ctx.pick(150, 300), m == "sqlite", nm) for _ in range(ctx.pick(5, 40))]
            mbt.run_traces(ctx, "drv-store", m, "StorageTrace", hs, {"TraceInit0": "<- StSt0", "TraceSteps": "<- StSteps", "TraceExpected": "<- StExpected", "NMAPS": nm}, setup={"maps": nm}, tag=f"{m}{nm}", per_file=ctx.pick(1000, 4000))

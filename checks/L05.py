import mbt
LT = {"TraceInit0": "<- ZSt0", "TraceSteps": "<- ZSteps", "TraceExpected": "<- ZExpected"}
INV = ["TypeUpright", "TypeHeaviest"]


def catalogue(ctx):
    """The transactions of the specification, for building worlds that make sense."""
    out = mbt.explore(ctx, "ChainsBook")
    return {k: {f: set(v[f]) for f in ("need", "deny", "take", "give")} | {"when": v["when"]} for k, v in out[0]["a"].items()}


def world(r, book, n, flaws=.15, depth=None):
    """A random tree whose blocks carry transactions that mostly make sense there."""
    blocks, facts = [], [({f"g{i}" for i in range(9)}, 0)]
    spread = r.random() < .3
    for b in range(1, n + 1):
        p = b - 1 if r.random() < .55 else r.randint(max(0, b - 5), b - 1)
        have, h = facts[p]
        have, h, txs = set(have), h + 1, []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            fit = [t for t, d in book.items() if d["need"] | d["take"] <= have and not d["deny"] & have and d["when"][0] != "never" and (d["when"][0] != "height" or h >= d["when"][1])]
            if r.random() < .04: fit = list(book)
            fit = [t for t in fit if not (t in ("deleg", "stake") and "q0" in have)]
            if not fit: break
            t = r.choice(fit)
            if book[t]["give"] & have: continue
            txs.append(t)
            have = have - book[t]["take"] | book[t]["give"]
        flaw = r.choice(["reward", "merkle"]) if r.random() < flaws * .5 else "none"
        ts = b if not spread else r.randint(0, 8) + 6 * h
        if r.random() < flaws * .2: ts = r.choice([0, 900])
        if r.random() < flaws * .2 and txs: txs.append(r.choice(txs))
        blocks.append({"p": p, "txs": txs, "flaw": flaw, "ts": ts})
        facts.append((have, h))
    return {"op": "world", "depth": depth if depth is not None else r.choice([1, 2, 3, 3, 100, 100]), "ck": r.choice([0] * 6 + [r.randint(1, n)]), "now": 200,
            "epoch": r.choice([2, 3, 1000]), "seal": r.choice([1, 2]), "blocks": blocks}


def history(r, w, steps):
    n = len(w["blocks"])
    out, now = [w], [w["now"]]
    order = list(range(1, n + 1))
    if r.random() < .5:      # nearly in order
        for _ in range(r.randint(0, 4)):
            i = r.randrange(n - 1)
            order[i], order[i + 1] = order[i + 1], order[i]
    else: order.sort(key=lambda b: b + r.random() * r.choice([1, 4, 12]))
    k = 0
    for _ in range(steps):
        x = r.random()
        if x < .62 and k < n:
            b, k = order[k], k + 1
            out.append({"op": "process", "b": b, "src": "peer" if r.random() < .08 else "local"})
        elif x < .7: out.append({"op": "process", "b": r.randint(1, n), "src": r.choice(["local", "peer"])})
        elif x < .78: out.append({"op": "invalidate", "b": r.randint(1, n)})
        elif x < .87: out.append({"op": "revive", "b": r.randint(1, n)})
        elif x < .91: out.append({"op": "check", "b": r.randint(1, n)})
        elif x < .94: out.append({"op": "reopen"})
        elif x < .96:
            now[0] += r.choice([0, 700])
            out.append({"op": "tick", "now": now[0]})
        else: out.append({"op": "fresh"})
    return out + [{"op": "fresh"}]


def plain(walk):
    l = [{"op": "world", **a["w"]} if a["op"] == "world" else a for a, _ in walk]
    return l + [{"op": "fresh"}]


def run(ctx):
    mbt.build("drv-chain")
    main, rest = '{"process","invalidate","revive"}', '{"process","check","invalidate","revive","reopen","tick","fresh"}'
    jobs = [dict(tag="trees", consts={"NB": ctx.pick(4, 5), "D": 99, "DEPTHS": "{9}", "FLAWS": "{}", "OPS": main}),
            dict(tag="flaws", consts={"NB": ctx.pick(3, 4), "D": 99, "DEPTHS": "{1, 9}", "FLAWS": '{"reward", "twice", "check", "over"}', "OPS": main}),
            dict(tag="others", consts={"NB": 3, "D": ctx.pick(5, 7), "DEPTHS": "{1, 2}", "FLAWS": '{"merkle", "future", "early", "check"}', "OPS": rest})]
    res = mbt.explore_many(ctx, [dict(module="ChainsMC", invariants=INV, view="ViewOf", emit_workers=4, **j) for j in jobs])
    for j, tr in zip(jobs, res):
        lists = [plain(w) for w in mbt.walks(ctx, tr, maxlen=60)]
        ctx.note("walks of " + j["tag"], len(lists))
        lists = ctx.rng.sample(lists, min(len(lists), ctx.pick(900, 8000)))
        mbt.run_traces(ctx, "drv-chain", "chains", "ChainsTrace", lists, LT, tag=j["tag"], per_file=1200, timeout=800)
    book = catalogue(ctx)
    lists = [history(ctx.rng, world(ctx.rng, book, ctx.rng.randint(5, 14)), 40) for _ in range(ctx.pick(250, 4000))]
    mbt.run_traces(ctx, "drv-chain", "chains", "ChainsTrace", lists, LT, tag="random", per_file=1200, timeout=800)

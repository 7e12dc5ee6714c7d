import mbt, terms
LT = {"TraceInit0": "<- LSt0", "TraceSteps": "<- LSteps", "TraceExpected": "<- LExpected"}


def runs(b):
    out = []
    for x in b:
        if out and out[-1][0] == x: out[-1][1] += 1
        else: out.append([x, 1])
    return out


def history(r, n, kdf):
    keys = [r.randbytes(32)]
    keys.append(bytes(b ^ (i == 7) << r.randint(0, 7) for i, b in enumerate(keys[0])))
    keys += [bytes(32), keys[0][::-1], keys[0][:31], keys[0] + b"\0"]
    keys = [runs(k) for k in keys]
    ads = [None, b"", b"\0", b"a", b"ab", r.randbytes(100)]
    msgs = [b"", b"\0", b"a" * 15, b"a" * 16, b"b" * 64, r.randbytes(100), r.randbytes(8), b"c" * 5000]
    pws = [b"", b"\0", b"a", b"A", b"a ", r.randbytes(40), b"a" * 64]
    cts, ln, dirty, kind = {}, {}, {}, {}
    party, kd = {}, {}
    out = []
    def ad():
        x = r.choice(ads)
        return {"ad": "none", "noad": 1} if x is None else {"ad": runs(x)}
    def made(c, k, size):
        cts[c], ln[c], dirty[c], kind[c] = 1, size, False, k
    while len(out) < n:
        x, c = r.random(), r.randint(0, 3)
        if kdf and x < .6:
            y, q = r.random(), r.randint(0, 3)
            if q not in kd or y < .15:
                p = r.choice([1, 1, 2])
                cfg = {"m": r.choice([8, 9, 16, 17]) * p, "t": r.choice([1, 1, 2]), "p": p, "len": r.choice([4, 16, 32, 33, 64, 65, 255, 256, 257, 300, 1000]), "salt": r.choice([8, 16, 32, 32, 255, 256, 300])}
                if r.random() < .1: cfg.update(r.choice([{"m": 8 * p - 1}, {"len": 3}, {"salt": 7}, {"salt": 1}, {"len": 1}]))
                out.append({"op": "hash", "r": q, "pw": runs(r.choice(pws)), "cfg": cfg})
                if cfg["m"] >= 8 * p and cfg["len"] >= 4 and cfg["salt"] >= 8: kd[q] = cfg
            elif y < .6: out.append({"op": "verify", "r": q, "pw": runs(r.choice(pws)), "m": r.choice(["normal", "resistant"])})
            elif y < .75: out.append({"op": "rederive", "r": q, "pw": runs(r.choice(pws))})
            else:
                part = r.choice(["m", "t", "salt", "salt", "hash", "hash", "hash_cut", "hash_ext", "salt_ext"])
                if part in ("hash_cut", "hash_ext", "salt_ext"):
                    if kd[q].get(part): continue
                    kd[q][part] = 1
                out.append({"op": "spoil", "r": q, "part": part, "at": r.randrange(3), "mask": 1 << r.randint(0, 7)})
        elif x < .65 and len(party) >= 2:
            i, j = r.choice(list(party)), r.choice(list(party))
            y = r.random()
            if y < .4: out.append({"op": "agree", "i": i, "j": j})
            elif party[i] == party[j]: continue
            elif y < .6:
                m = r.choice(msgs); made(c, "data", 40 + len(m))
                out.append({"op": "send", "c": c, "i": i, "j": j, "m": runs(m)})
            elif y < .7: made(c, "data", 48); out.append({"op": "send_num", "c": c, "i": i, "j": j, "x": r.randint(0, 2**31 - 1)})
            elif c in cts and kind[c] == "data": out.append({"op": r.choice(["recv", "recv", "recv_num"]), "c": c, "i": i, "j": j})
        elif x < .7 or len(party) < 2:
            i, s = r.randint(0, 3), r.randint(0, 5)
            party[i] = s
            out.append({"op": "party", "i": i, "seed": s})
        elif x < .76:
            y = r.random()
            k = r.choice(keys[:4] + [None])
            if y < .5:
                made(c, "wrap", 9 if k is None else 49)
                if k is None: kind[c] = "plain"
                out.append({"op": "wrap", "c": c, "x": r.randint(0, 2**31 - 1), **({"key": "none", "plain": 1} if k is None else {"key": k})})
            elif c in cts and kind[c] != "data": out.append({"op": "unwrap", "c": c, **({"key": "none", "plain": 1} if k is None else {"key": k})})
        elif x < .8 or c not in cts:
            k, m = r.choice(keys if r.random() < .3 else keys[:2]), r.choice(msgs)
            out.append({"op": "seal", "c": c, "key": k, "m": runs(m), **ad()})
            if k in keys[:4]: made(c, "data", 40 + len(m))
        elif x < .9:
            if kind[c] == "data": out.append({"op": "open", "c": c, "key": r.choice(keys if r.random() < .3 else keys[:2]), **(ad())})
        else:
            if kind[c] == "plain": continue
            y = r.random()
            if y < .4 and ln[c]:
                at, mask = r.randrange(ln[c]), r.choice([1, 2, 128, 255, r.randint(1, 255)])
                out.append({"op": "flip", "c": c, "at": at, "mask": mask})
                if r.random() < .5: out.append({"op": "flip", "c": c, "at": at, "mask": mask})
                dirty[c] = True
            elif y < .5: k = r.choice([0, 1, 16, ln[c]]); k = min(k, ln[c]); ln[c] -= k; out.append({"op": "cut", "c": c, "n": k}); dirty[c] = True
            elif y < .55: k = min(r.choice([1, 24]), ln[c]); ln[c] -= k; out.append({"op": "behead", "c": c, "n": k}); dirty[c] = True
            elif y < .7:
                out.append({"op": "extend", "c": c, "b": r.randint(0, 255)}); ln[c] += 1; dirty[c] = True
                if r.random() < .5: out.append({"op": "cut", "c": c, "n": 1}); ln[c] -= 1
            elif y < .85:
                d = r.randint(0, 3)
                if d in cts: out.append({"op": "copy", "c": c, "d": d}); cts[c], ln[c], dirty[c], kind[c] = cts[d], ln[d], dirty[d], kind[d]
            else:
                d = r.randint(0, 3)
                if d in cts and d != c and kind[c] == kind[d] == "data" and not dirty[c] and not dirty[d] and min(ln[c], ln[d] - 8) >= 8 and cts[c] != cts[d]:
                    out.append({"op": "splice", "c": c, "d": d, "at": r.randint(8, min(ln[c], ln[d] - 8))}); ln[c] = ln[d]; dirty[c] = True
    return out


def tok(trace):
    seen = {}
    for x in trace:
        o = x["o"]
        if o.get("k") == "sealed": o["v"] = seen.setdefault(o["v"]["$b"], len(seen))
    return terms.tokens(["h", "salt"])(trace)


def run(ctx):
    mbt.build("drv-crypto")
    jobs = [dict(module="SealsMC", consts={"FAM": f, "N": n, "RICH": "FALSE"}, invariants=["OnlyKey", "Symmetric", "OnlyPassword"], view="ViewOf", tag=str(f))
            for f, n in ((1, ctx.pick(4, 5)), (2, ctx.pick(5, 6)), (3, ctx.pick(3, 4)), (4, ctx.pick(4, 5)))]
    names = terms.Names()
    for tr in mbt.explore_many(ctx, jobs, par=4):
        ex = names.cmp(["h"])
        def cmp(e, o):
            if e.get("k") == "secret": return o.get("k") == "secret"
            if e.get("k") == "sealed": return o.get("k") == "sealed" and o["len"] == e["len"]
            if e.get("k") == "hashed": e = {k: v for k, v in e.items() if k != "h"}
            return ex(e, o)
        mbt.replay(ctx, "drv-crypto", "seal", mbt.walks(ctx, tr), what="opening sealed data", cmp=cmp)
    mbt.run_traces(ctx, "drv-crypto", "seal", "SealsTrace", [history(ctx.rng, 80, i % 3 == 0) for i in range(ctx.pick(60, 600))], LT,
                   post=tok, per_file=700)

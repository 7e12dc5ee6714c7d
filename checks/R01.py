import mbt
PT = {"TraceInit0": "<- A0", "TraceSteps": "<- ASteps", "TraceExpected": "<- AExpected"}


def b(t): return list(t.encode())


def history(r):
    """Random settings with near misses of the credentials in force."""
    out, up, n, cred = [], False, 0, None
    chars = "abAB:. é=" + "xyz"
    word = lambda m: "".join(r.choice(chars) for _ in range(r.randrange(m)))
    for _ in range(60):
        c = r.random()
        if not up:
            user, pw = word(6).replace(":", "") if r.random() < .9 else word(6), word(8)
            mode = r.choice(["basic", "basic", "cookie", "cookie", "given", "open"])
            opt = lambda x, on: {"some": b(x)} if on else {"none": True}
            a = {"op": "start", "auth": mode != "open", "user": opt(user, mode == "basic"), "pass": opt(pw, mode == "basic"), "cookie": "given" if mode == "given" else "none", "busy": r.random() < .1}
            if c < .2: out.append({"op": "litter", "at": r.choice(["data", "given", "datatmp", "giventmp"])})
            out.append(a)
            if mode in ("cookie", "given"): n += 1
            up = not a["busy"] and not (mode == "basic" and ":" in user)
            cred = (mode, user, pw)
        elif c < .12: out.append({"op": r.choice(["stop", "stop", "crash"])}); up = False; out[-1]["sub"] = r.random() < .5
        elif c < .2: out.append({"op": "client", "via": r.choice(["http", "ws"]), "auth": {"k": "cookie", "at": r.choice(["data", "given"])} if r.random() < .5 else {"k": "basic", "user": b(cred[1]), "pass": b(cred[2])}})
        elif c < .23: out.append({"op": "hold", "auth": {"k": "cookie", "at": "data"}})
        elif c < .3 and n: out += [{"op": "hold", "auth": {"k": "cookie", "at": "data"}}, {"op": "held"}]
        else:
            via = r.choice(["post", "ws", "list"])
            if n and r.random() < .4:
                h = r.choice([{"k": "cookie", "n": n}, {"k": "cookie", "n": r.randint(1, n)}, {"k": "near", "n": n, "how": r.choice(["cut", "add", "empty", "case", "last", "first"])}])
            else:
                t = b(cred[1] + ":" + cred[2])
                m = r.random()
                if m < .4: pass
                elif m < .55 and t: t[r.randrange(len(t))] ^= 1 << r.randrange(8)
                elif m < .7: t.insert(r.randrange(len(t) + 1), r.choice([58, 97, 0, 255]))
                elif m < .85: del t[r.randrange(len(t))]
                else: t = b(cred[2] + ":" + cred[1])
                h = {"k": "basic", "d": t}
            out.append({"op": "request", "via": via, "h": h})
    return out


def run(ctx):
    mbt.build("drv-rpc")
    jobs = [dict(module="AccessMC", consts={"FAM": 1, "STARTS": 1, "DEPTH": 2}, invariants=["OneKey"], view="StateView", tag="set"),
            dict(module="AccessMC", consts={"FAM": 2, "STARTS": ctx.pick(2, 3), "DEPTH": ctx.pick(4, 6)}, invariants=["OneKey", "OldSecrets"], view="StateView", tag="hist")]
    for tr in mbt.explore_many(ctx, jobs):
        mbt.replay(ctx, "drv-rpc", "access", mbt.walks(ctx, tr), what="access to the server")
    mbt.run_traces(ctx, "drv-rpc", "access", "AccessTrace", [history(ctx.rng) for _ in range(ctx.pick(30, 400))], PT, per_file=1500)

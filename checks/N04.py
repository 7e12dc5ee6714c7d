import mbt, puremod
M64, S63 = 2**64 - 1, 2**63


def r64(r):
    c = r.random()
    if c < .3: return r.randint(0, 20)
    if c < .6: return r.choice([M64, S63, S63 - 1]) - r.choice([0, 0, 1, 2, r.getrandbits(20)])
    return r.getrandbits(r.choice([64, 63, 32, 20]))


def rw(r, w):
    c = r.random()
    if c < .3: return r.randint(0, 12)
    if c < .6: return max(0, 2**r.randint(0, w) - 1 - r.choice([0, 0, 1, r.getrandbits(8)]))
    return r.getrandbits(r.choice([w, w // 2, w - 1, 8]))


def digits(r, hi):
    v = r.choice([r.randint(0, hi), hi, hi + 1, hi + r.randint(0, 10), 0, r.randint(0, hi)])
    t = str(v)
    c = r.random()
    if c < .1: t = "+" + t
    elif c < .15: t = "-" + t
    elif c < .2: t = "0" * r.randint(1, 4) + t
    elif c < .25: t = t + r.choice([" ", "x", "_", ".", ""])
    elif c < .27: t = ""
    return t


def tm(r):
    s = r.choice([r64(r), r.randint(0, 2**34), r.randint(0, 253402300799), 86400 * r.randint(0, 2932896) + r.choice([0, 86399]), M64])
    return s * 10**9 + r.choice([0, 0, 1, 999999999, r.randint(0, 999999999), 1000000 * r.randint(0, 999), 1000 * r.randint(0, 999999)])


def acts(r, n):
    B, T, out = mbt.big, lambda s: mbt.byt(s.encode()), []
    ops = ["expand", "compact", "rat", "rat", "rat_parts", "h_add_d", "h_sub_d", "h_sub_h", "d_add_d", "d_sub_d", "c_add", "c_sub", "h_checked_add",
           "h_next", "h_prev", "h_cmp", "h_iter", "h_text", "h_parse", "pt_new", "pt_parse", "pt_parse", "pt_json_int", "pt_text", "pt_cmp", "sv_parse",
           "sv_parse", "sv_text", "sv_cmp", "t_add", "t_sub", "t_sub_t", "t_sat_add", "t_sat_sub", "t_sat_sub_t", "t_cmp", "t_secs", "t_from_secs",
           "t_to_int", "t_from_int", "t_abs", "t_text", "t_text", "t_mock", "expand", "compact"]
    for _ in range(n):
        op = r.choice(ops)
        a = {"op": op}
        if op == "expand":
            a["a"] = B(r.choice([r.getrandbits(32), (r.randint(0, 36) << 24) | r.choice([r.getrandbits(23), r.getrandbits(24), r.getrandbits(16), r.getrandbits(8), 0x800000])]))
        elif op == "compact": a["a"] = B(min(2**256 - 1, r.choice([rw(r, 256), r.getrandbits(24) << r.randint(0, 232), r.getrandbits(r.randint(1, 256))])))
        elif op == "rat":
            w = r.choice([64, 128, 256])
            x, y = rw(r, w), max(1, rw(r, w))
            c = r.random()
            if c < .35:       # an equal or nearly equal fraction with other terms
                k = max(1, min((2**w - 1) // max(x, y, 1), r.choice([2, 3, 2**r.randint(0, w - 1)])))
                u, v = x * k, y * k
                if r.random() < .5: u = u + r.choice([-1, 1])
                u = max(0, min(2**w - 1, u))
            elif c < .5: u, v = rw(r, w), y
            elif c < .65: u, v = x, max(1, rw(r, w))
            else: u, v = rw(r, w), max(1, rw(r, w))
            if r.random() < .1: x = 0
            if r.random() < .1: u = 0
            m = 2**w - 1
            a.update(w=w, a=B(min(m, x)), b=B(min(m, y)), c=B(min(m, u)), d=B(min(m, v)))
        elif op == "rat_parts": a.update(a=B(rw(r, 127)), b=B(rw(r, 127)))
        elif op in ("h_add_d", "h_sub_d", "d_add_d", "d_sub_d"):
            x = r64(r) if op[0] == "h" else r.choice([-1, 1]) * (r64(r) >> 1)
            y = r.choice([1, -1]) * (r64(r) >> 1)
            c = r.random()
            if c < .2: y = x + r.randint(-1, 1)
            elif c < .4: y = S63 - 1 - x + r.randint(-1, 1)
            elif c < .5: y = -S63
            y = max(-S63, min(S63 - 1, y))
            a.update(a=B(x), b=B(y))
        elif op in ("h_sub_h", "c_add", "c_sub", "h_checked_add", "h_cmp"):
            x = r64(r)
            y = r.choice([r64(r), min(M64, max(0, x + r.randint(-1, 1))), M64 - x, min(M64, M64 - x + 1)])
            a.update(a=B(x), b=B(y))
        elif op in ("h_next", "h_prev", "h_text"): a["a"] = B(r64(r))
        elif op == "h_iter":
            x = r64(r)
            a.update(a=B(x), b=B(min(M64, max(0, x + r.randint(-3, 6)))))
        elif op == "h_parse": a["s"] = T(digits(r, M64))
        elif op in ("pt_new", "pt_json_int"): a["n"] = r.choice([r.randint(0, 1100), r.randint(0, 65535), 1000, 1001] + ([65536, 66536, 70000] if op == "pt_json_int" else []))
        elif op == "pt_text": a["n"] = r.randint(0, 1000)
        elif op == "pt_cmp": a.update(n=r.randint(0, 1000), n2=r.randint(0, 1000))
        elif op == "pt_parse":
            v = r.choice([r.randint(0, 1000), r.randint(0, 1100), r.randint(0, 10**7), 65536, 65537, 66536])
            d = r.choice([0, 1, 1, 2, 3, 3, 4])
            t = str(v) if d == 0 else (lambda s: s[:-d] + "." + s[-d:])(str(v).zfill(d + r.randint(0, 1)))
            t = r.choice(["", "", "", " ", "0", "-", "_"]) + t + r.choice(["", "", "0", "%", "%", "%", " ", " %"])
            a["s"] = T(t)
        elif op == "sv_parse":
            k = r.choice([3, 3, 3, 3, 3, 2, 4, 1])
            a["s"] = T(".".join(digits(r, 255 if i < 2 else 65535) for i in range(k)))
        elif op == "sv_text": a.update(a=r.randint(0, 255), b=r.randint(0, 255), c=r.randint(0, 65535))
        elif op == "sv_cmp":
            x = [r.randint(0, 255), r.randint(0, 255), r.randint(0, 65535)]
            y = list(x)
            for i in range(3):
                if r.random() < .4: y[i] = r.randint(0, 255)
            a.update(x=x, y=y)
        elif op in ("t_secs", "t_to_int"): a["a"] = B(tm(r))
        elif op == "t_mock": a["a"] = B(max(10**6, tm(r)))
        elif op in ("t_from_secs", "t_from_int"): a["a"] = B(r64(r))
        elif op == "t_abs": a["a"] = B(tm(r))
        elif op == "t_text": a["a"] = B(r.randint(0, 253402300799) * 10**9 + tm(r) % 10**9)
        else:
            x, y = tm(r), tm(r)
            mx = M64 * 10**9 + 999999999
            c = r.random()
            if c < .2: y = x
            elif c < .4: y = max(0, min(mx, x + r.randint(-1, 1)))
            elif c < .6: y = max(0, min(mx, mx - x + r.randint(-1, 1)))
            a.update(a=B(x), b=B(y))
        out.append(a)
    return out


def run(ctx):
    mbt.build("drv-num")
    puremod.mc(ctx, "drv-num", "values", "ValuesMC", {"RICH": ctx.pick("FALSE", "TRUE")},
               ["CompactCanonical", "ExpandFits", "PtRound", "HRound", "HeightSub", "RatOrder"])
    puremod.rnd(ctx, "drv-num", "values", "ValuesTrace", acts(ctx.rng, ctx.pick(8000, 80000)))

import mbt, puremod


def acts(r, n):
    out = []
    for _ in range(n):
        k = r.choice([2, 5, 6, 7, 9, 12])
        style = r.random()
        order = list(range(1, k + 1)); r.shuffle(order)
        pos = {x: i for i, x in enumerate(order)}
        p = r.choice([.1, .25, .5, .8])
        g = []
        for x in range(1, k + 1):
            c = [y for y in range(1, k + 1) if r.random() < p and (style > .75 or pos[y] > pos[x])]
            r.shuffle(c)
            if c and r.random() < .15: c += r.sample(c, 1)
            g.append(c)
        roots = [r.randint(1, k) for _ in range(r.choice([1, 1, 2, 3, 4, k]))]
        if r.random() < .7: roots = list(dict.fromkeys(roots))
        out.append({"op": r.choice(["multi", "multi", "one"]), "g": g, "roots": roots})
    return out


def run(ctx):
    mbt.build("drv-utils")
    jobs = [dict(module="GraphsMC", consts={"FAM": f, "ROOTS": ctx.pick(2, 3) if f in (1, 2) else 2}, invariants=["Proper", "AllOut"], tag=str(f), emit_workers=2) for f in ctx.pick((1, 2), (1, 2, 3, 4))]
    jobs.append(dict(module="GraphsMC", consts={"FAM": 3, "ROOTS": 1}, properties=["Ends"], emit=False, tag="live"))
    for tr in mbt.explore_many(ctx, jobs):
        puremod.rnd(ctx, "drv-utils", "graph", "GraphsTrace", [x["a"] for x in tr], tag=f"mc{len(tr)}")
    puremod.rnd(ctx, "drv-utils", "graph", "GraphsTrace", acts(ctx.rng, ctx.pick(3000, 30000)))

import mbt
CT = {"TraceInit0": "<- St0", "TraceSteps": "<- Steps", "TraceExpected": "<- Expected"}


def explore_deltas(ctx, nk, nv, nd, depth, tag):
    return mbt.explore(ctx, "DeltasMC", {"NK": nk, "NV": nv, "ND": nd, "DEPTH": depth}, view="ViewOf", tag=tag,
                       invariants=["TypeOK", "StackIsDirect", "FlushIsSound", "ContradictionRefused", "AppliedExactly",
                                   "UndoRestores"])


def random_history(rng, n, nk, nv, undo_weight, honest):
    """A long random history; the generator tracks the view only to make most changes follow on."""
    base = {k: 0 for k in range(1, nk + 1)}
    layers, undos, acts = [{}], [], []
    def view(k):
        for l in reversed(layers):
            if k in l:
                return l[k][1]
        return base[k]
    def merge(c, d):
        c = dict(c)
        for k, (o, nw) in d.items():
            if k in c:
                if c[k][1] != o:
                    return None
                c[k] = (c[k][0], nw)
            else:
                c[k] = (o, nw)
        return c
    for _ in range(n):
        r = rng.random()
        top = len(layers)
        if r < undo_weight and undos:
            i, u = undos[-1]
            m = merge(layers[i], u)
            acts.append({"op": "undo", "elem": rng.random() < 0.5})
            if m is not None:
                layers[i] = m
                undos.pop()
        elif r < undo_weight + 0.06 and top < 5:
            acts.append({"op": "push"})
            layers.append({})
        elif r < undo_weight + 0.14:
            acts.append({"op": "flush"})
            if top == 1:
                nb = dict(base)
                if all(nb[k] == o for k, (o, w) in layers[0].items()):
                    for k, (o, w) in layers[0].items():
                        nb[k] = w
                    base, layers, undos = nb, [{}], []
            else:
                m = merge(layers[-2], layers[-1])
                if m is not None:
                    d = layers.pop()
                    layers[-1] = m
                    undos = [x for x in undos if x[0] < top - 1] + [(top - 2, {k: (w, o) for k, (o, w) in d.items()})]
        elif r < undo_weight + 0.20:
            acts.append({"op": "get", "layer": rng.randint(1, top), "key": rng.randint(1, nk)})
        elif r < undo_weight + 0.23:
            d = [] if rng.random() < 0.2 else [rng.randint(0, nv), rng.randint(0, nv)]
            acts.append({"op": "apply", "rec": rng.randint(0, nv), "d": d})
        else:
            k = rng.randint(1, nk)
            # sometimes straight into a lower overlay
            i = top if rng.random() < 0.8 else rng.randint(1, top)
            old = layers[i - 1][k][1] if (i < top and k in layers[i - 1]) else view(k)
            if rng.random() > honest:
                old = rng.randint(0, nv)
            new = rng.randint(0, nv)
            acts.append({"op": "put", "layer": i, "key": k, "old": old, "new": new})
            m = merge(layers[i - 1], {k: (old, new)})
            if m is not None:
                layers[i - 1] = m
                undos.append((i - 1, {k: (new, old)}))
    return acts

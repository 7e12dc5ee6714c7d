"""Checks of specifications of functions: MC module printing (act, obs) pairs, and traces of random acts."""
import mbt
PT = {"TraceInit0": "<- PureSt0", "TraceSteps": "<- PureSteps", "TraceExpected": "<- PureExpected"}


def mc(ctx, pkg, dmod, module, consts, invariants, key=None, tag="", timeout=800, cmp=mbt.match):
    tr = mbt.explore(ctx, module, consts, invariants=invariants, tag=tag, timeout=timeout)
    mbt.replay(ctx, pkg, dmod, [[(x["a"], x["o"])] for x in tr], key=key, what="answer of the specification", cmp=cmp)
    # one trace per act would be one instance each; functions have no state, so count them as steps only
    ctx.traces -= max(0, len(tr) - 1)
    return tr


def rnd(ctx, pkg, dmod, module, acts, per=250, consts=None, key=None, tag=""):
    lists = [acts[i:i + per] for i in range(0, len(acts), per)]
    return mbt.run_traces(ctx, pkg, dmod, module, lists, {**PT, **(consts or {})}, key=key, tag=tag, per_file=1 + len(acts) // 4)

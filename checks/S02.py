import hashlib, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import mbt
PT = {"TraceInit0": "<- DownSt0", "TraceSteps": "<- StSteps", "TraceExpected": "<- StExpected", "NMAPS": 2}
B = mbt.byt


def shim():
    so = os.path.join(mbt.TARGET, "crash.so")
    src = os.path.join(mbt.HARNESS, "shim", "crash.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, src, "-ldl"], capture_output=True, text=True)
        if r.returncode: raise mbt.ToolError("crash shim: " + r.stderr[-500:])
    return so


def put(m, k, v): return {"op": "put", "m": m, "key": B(k), "val": B(v)}


def begin(r, big=0):
    """A transaction writing the same number to several keys of both maps, so that every mixture shows."""
    acts = [{"op": "begin"}]
    n = r.randbytes(2)
    for k in r.sample(range(5), r.randint(1, 4)):
        c = r.random()
        m = r.randint(0, 1)
        acts.append(put(m, bytes([k]), n + bytes(r.choice([0, 0, 30, 3000]))) if c < .75 else {"op": "del", "m": m, "key": B(bytes([k]))})
    for i in range(big): acts.append(put(i % 2, i.to_bytes(2, "big"), n + bytes(4000)))
    return acts


def workload(r, n, big=0):
    acts = [{"op": "open"}]
    for i in range(n):
        acts += begin(r, big if i == n - 2 else 0)
        acts.append({"op": r.choice(["commit", "commit", "commit", "abort"]) if i < n - 1 else "commit"})
        if r.random() < .2: acts.append({"op": "get", "m": 0, "key": B(b"\1"), "i": 9})
        if r.random() < .15: acts += [{"op": "close"}, {"op": "open"}]
    return acts + [{"op": "close"}]


def drive(so, d, acts, at=0, mode="kill", count=None):
    env = {**os.environ, "LD_PRELOAD": so, "CRASH_DIR": d, "CRASH_AT": str(at), "CRASH_MODE": mode, "RUST_BACKTRACE": "0"}
    if count: env["CRASH_COUNT"] = count
    text = json.dumps({"op": "reset", "closed": True}) + "\n" + "".join(json.dumps(a) + "\n" for a in acts)
    try:
        p = subprocess.run([os.path.join(mbt.TARGET, "debug", "drv-store"), "sqlite-at", os.path.join(d, "db")], input=text, capture_output=True, text=True, env=env, timeout=120)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}")][1:]
        if p.returncode == 0: return out, None
        return out, "crash" if p.returncode == 99 else f"died: {p.stderr[-200:]}"
    except subprocess.TimeoutExpired as e:
        return [], "hang"


def seg(acts, so, d, at, mode):
    out, dead = drive(so, d, acts, at, mode)
    t = [{"a": a, "o": o} for a, o in zip(acts, out)]
    if dead and dead != "crash":
        t.append({"a": acts[min(len(out), len(acts) - 1)], "o": {"k": dead}})
    elif dead:
        during = acts[len(out)]["op"] if len(out) < len(acts) else "none"
        t.append({"a": {"op": "crash", "during": during}, "o": {"k": "ok"}})
    return t


def short(v):
    """Long values by a digest: the specification only moves and compares them."""
    if isinstance(v, dict):
        if "$b" in v and len(v["$b"]) > 64: return B(hashlib.sha256(v["$b"].encode()).digest()[:6])
        return {k: short(x) for k, x in v.items()}
    return [short(x) for x in v] if isinstance(v, list) else v


def run(ctx):
    mbt.build("drv-store")
    so = shim()
    base = tempfile.mkdtemp(prefix="s02-")
    r = ctx.rng
    dump = [{"op": "from", "m": m, "key": B(b""), "i": 9} for m in (0, 1)]
    try:
        jobs = []
        for w in range(ctx.pick(3, 20)):
            big = (650 if w % 4 == 1 else 0) if ctx.thorough else 0
            acts = workload(r, ctx.pick(4, 7), big)
            d = os.path.join(base, f"count{w}")
            os.mkdir(d)
            cnt = os.path.join(base, f"n{w}")
            drive(so, d, acts, count=cnt)
            total = int(open(cnt).read())
            ctx.note("crash_points", total)
            points = range(1, total + 2) if total < 700 else sorted(r.sample(range(1, total + 2), 500))
            for at in points:
                modes = ["kill", "torn", "power", "powerdb", "powerjrn"] if ctx.thorough else ["kill", r.choice(["torn", "power", "power", "powerdb", "powerjrn"])]
                for mode in modes: jobs.append((len(jobs), acts, at, mode, r.randint(1, 12) if r.random() < .4 else 0))

        def one(job):
            i, acts, at, mode, again = job
            d = os.path.join(base, f"j{i}")
            os.mkdir(d)
            t = seg(acts, so, d, at, mode)
            rec = [{"op": "open"}] + dump
            if again and t[-1]["a"]["op"] == "crash": t += seg(rec, so, d, again, mode)     # dies again while recovering
            if t[-1]["a"]["op"] in ("crash", "close"):
                t += seg(rec + [{"op": "begin"}, put(0, b"z", b"1"), {"op": "commit"}, {"op": "close"}, {"op": "open"}] + dump + [{"op": "close"}], so, d, 0, "kill")
            shutil.rmtree(d, ignore_errors=True)
            return short(t)

        with ThreadPoolExecutor(8) as ex: traces = list(ex.map(one, jobs))
        ctx.note("crashes", sum(1 for t in traces if any(x["a"]["op"] == "crash" for x in t)))
        ctx.note("crashes_during_commit", sum(1 for t in traces if any(x["a"].get("during") == "commit" for x in t)))
        ctx.sample(traces[len(traces) // 2][-12:-6])
        mbt.validate(ctx, "StorageTrace", traces, PT, what="recovery after a crash", per_file=3000)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ctx.assumptions.append("crash points are the changes the process makes to files below the database directory; a power failure loses the changes not yet synced")

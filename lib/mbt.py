"""Common part of the checks: build the drivers, run TLC, compare the specification with the code.

Two bindings are used:
  explore -> replay : TLC enumerates the reachable states of a specification with small constants, checks its
                      invariants, and prints every transition (state, action, observation, next state). Walks that
                      cover all transitions are replayed through the real code and the observations compared.
  drive -> validate : actions are sent to the real code, the observations are recorded, and TLC checks that the
                      recorded trace is a behaviour of the specification (TraceBase.tla).
"""
import fcntl, json, os, random, re, shutil, subprocess, sys, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.impl_steps = 0
        self.samples, self.notes, self.violations = [], {}, []
        self.assumptions = []
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def note(self, k, v=1):
        if isinstance(v, (int, float)):
            self.notes[k] = self.notes.get(k, 0) + v
        else:
            self.notes[k] = v

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, detail, key=None):
        """key: identifies the failing input/history for the known-findings file."""
        for f in self.known:
            if key is not None and f["key"] == key:
                if not f.get("seen"):
                    f["seen"] = True
                    print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
                return
        n = len(self.violations)
        path = os.path.join(self.work, f"violation-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "what": what, "key": key, "detail": detail, "tier": self.tier,
                       "seed": self.seed}, fh, indent=1, default=str)
        self.violations.append(path)
        if n < 5:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {what}: {json.dumps(detail, default=str)[:1500]}")

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "impl_steps_compared": self.impl_steps,
                           "samples": self.samples, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.prop} {self.tier}: {self.states} states, {self.transitions} transitions, {self.traces} traces, "
              f"{self.impl_steps} compared steps, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                j = json.loads(l)
                if j["property"] == prop:
                    out.append(j)
    return out


# ---------------------------------------------------------------------- building and running drivers
def cargo_env():
    env = dict(os.environ)
    env.update(PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin"), HOME="/root",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
               CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build(*pkgs):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        args = ["cargo", "build", "--offline", "--quiet"]
        for p in pkgs:
            args += ["-p", p]
        r = subprocess.run(args, cwd=HARNESS, env=cargo_env(), capture_output=True, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stderr.splitlines() if l.startswith("error")]
        blocks = r.stderr.split("\n\n")
        sys.stderr.write("\n\n".join(b for b in blocks if b.lstrip().startswith("error"))[-4000:] + "\n")
        raise ToolError("build failed: " + "; ".join(errs[:4]))
    return [os.path.join(TARGET, "debug", p) for p in pkgs]


def drive(pkg, module, acts, timeout=300, env=None, args=()):
    """Send acts to the driver, return one observation per act. Death or hang of the driver is an observation."""
    exe = os.path.join(TARGET, "debug", pkg)
    out = []
    rest = list(acts)
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    text = "".join(json.dumps(a) + "\n" for a in rest)
    p = subprocess.Popen([exe, module, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, env=e)
    dead = None
    try:
        so, se = p.communicate(text, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        so, se = p.communicate()
        dead = "hang"
    out = []
    for l in so.splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            break
    # A panic of the driver itself ("driver: ...") means that the code is in a state in which the driver cannot carry out
    # an action that the specification allows: an observation the specification never predicts.
    if len(out) < len(rest):
        if dead is None:
            dead = f"exit {p.returncode}: {se[-300:]}"
            if p.returncode == 101 and "driver:" in se:
                raise ToolError("driver protocol: " + se[-500:])
        out.append({"k": "crash", "msg": dead})
    return out[: len(rest)]


# ---------------------------------------------------------------------- values
BASE = 4096


def limbs(n):
    assert n >= 0
    r = []
    while n:
        r.append(n % BASE)
        n //= BASE
    return r


def unlimbs(l):
    return sum(d * BASE ** i for i, d in enumerate(l))


def big(n):
    return {"$n": str(n)}


def byt(b):
    return {"$b": bytes(b).hex()}


def enc(v):
    """Driver JSON -> JSON for TLC: integers as [neg, mag (limbs)], bytes as sequences of 0..255."""
    if isinstance(v, dict):
        if "$n" in v:
            n = int(v["$n"])
            return {"neg": n < 0, "mag": limbs(abs(n))}
        if "$b" in v:
            return list(bytes.fromhex(v["$b"]))
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, list):
        return [enc(x) for x in v]
    return v


def dec(v):
    """TLC JSON -> driver JSON (only the integers need it)."""
    if isinstance(v, dict):
        if set(v) == {"neg", "mag"}:
            n = unlimbs(v["mag"])
            return {"$n": str(-n if v["neg"] else n)}
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


# ---------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg_text, workers=8, timeout=800, extra=(), env=None, tag=""):
    d = os.path.join(ctx.work, f"tlc-{module}{tag}")
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-Xmx8g", "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, f"-DTLA-Library={SPEC}", "tlc2.TLC", "-config", cfg,
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-nowarning", *extra,
           os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    out = r.stdout + r.stderr
    with open(os.path.join(d, "out.txt"), "w") as fh:
        fh.write(out)
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": r.returncode, "out": out, "generated": gen, "distinct": dist, "dir": d}


def tlc_error(r):
    i = r["out"].find("Error:")
    return r["out"][i:i + 2500] if i >= 0 else r["out"][-2500:]


def cfg_consts(consts):
    lines = []
    for k, v in (consts or {}).items():
        lines.append(f"CONSTANT {k} {v}" if str(v).startswith("<-") else f"CONSTANT {k} = {v}")
    return "\n".join(lines) + "\n"


def explore(ctx, module, consts=None, invariants=(), properties=(), constraint=None, workers=8, emit=True, spec="Spec",
            view=None, timeout=800, tag="", postcond=None, extra=(), emit_workers=1):
    """Exhaustive exploration; returns the list of transitions printed by the specification."""
    cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n" + cfg_consts(consts)
    for i in invariants:
        cfg += f"INVARIANT {i}\n"
    for i in properties:
        cfg += f"PROPERTY {i}\n"
    if constraint:
        cfg += f"CONSTRAINT {constraint}\n"
    if view:
        cfg += f"VIEW {view}\n"
    if postcond:
        cfg += f"POSTCONDITION {postcond}\n"
    r = tlc(ctx, module, cfg, workers=emit_workers if emit else workers, timeout=timeout, tag="-explore" + tag, extra=extra)
    if r["rc"] != 0:
        raise ToolError(f"specification {module} fails its own check: " + tlc_error(r))
    ctx.states += r["distinct"]
    ctx.transitions += r["generated"]
    ctx.note("spec_states", r["distinct"])
    ctx.note("spec_transitions", r["generated"])
    tr = []
    if emit:
        for l in r["out"].splitlines():
            if l.startswith('"{') and l.endswith('}"'):
                tr.append(json.loads(json.loads(l)))
    return tr


def explore_many(ctx, jobs, par=6):
    """jobs: list of explore(**kwargs); run side by side, returns the transitions of each."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda j: explore(ctx, **j), jobs))


def canon(x):
    return json.dumps(x, sort_keys=True)


def walks(ctx, trans, init=None, maxlen=400):
    """Walks from the initial state that together take every transition. trans: dicts s, a, o, t."""
    graph = collections.defaultdict(list)
    seen = set()
    for x in trans:
        s, t, a = canon(x["s"]), canon(x["t"]), x["a"]
        k = (s, canon(a), canon(x["o"]))
        if k in seen:
            continue
        seen.add(k)
        graph[s].append((a, x["o"], t, len(seen)))
    if init is None:
        init = canon(trans[0]["s"])
    todo = {s: list(reversed(v)) for s, v in graph.items()}
    left = sum(len(v) for v in todo.values())
    # distance to nearest state with work left is recomputed lazily by BFS
    # shortest path from init to every state
    par = {init: None}
    q = collections.deque([init])
    while q:
        s = q.popleft()
        for a, o, t, n in graph[s]:
            if t not in par:
                par[t] = (s, a, o)
                q.append(t)
    out = []
    pending = sorted(todo, key=lambda s: 0)
    pi = 0
    while left:
        # start a new walk at the next state with uncovered transitions
        while pi < len(pending) and not todo[pending[pi]]:
            pi += 1
        if pi >= len(pending):
            break
        s = pending[pi]
        if s not in par:
            todo[s] = []
            continue
        path = []
        x = s
        while par[x] is not None:
            path.append((par[x][1], par[x][2]))
            x = par[x][0]
        path.reverse()
        while len(path) < maxlen and todo.get(s):
            a, o, t, n = todo[s].pop()
            left -= 1
            path.append((a, o))
            s = t
            if not todo.get(s):
                # short BFS for a state with work left
                prev = {s: None}
                q = collections.deque([s])
                hit = None
                while q and len(prev) < 400:
                    u = q.popleft()
                    if todo.get(u):
                        hit = u
                        break
                    for a2, o2, t2, n2 in graph[u]:
                        if t2 not in prev:
                            prev[t2] = (u, a2, o2)
                            q.append(t2)
                if hit is None:
                    break
                seg = []
                u = hit
                while prev[u] is not None:
                    seg.append((prev[u][1], prev[u][2]))
                    u = prev[u][0]
                seg.reverse()
                path += seg
                s = hit
        out.append(path)
    return out


def match(expected, got):
    """Every field the specification predicts must be observed; extra fields of the driver are ignored."""
    if isinstance(expected, dict) and isinstance(got, dict):
        return all(k in got and match(v, got[k]) for k, v in expected.items())
    if isinstance(expected, list) and isinstance(got, list):
        return len(expected) == len(got) and all(match(a, b) for a, b in zip(expected, got))
    return type(expected) == type(got) and expected == got


def replay(ctx, pkg, module, ws, setup=None, key=None, what="replayed behaviour of the specification", chunk=20000,
           cmp=match):
    """ws: list of walks [(act, expected obs)]; each replayed from a fresh instance in the real code."""
    acts, exp, pos = [], [], []

    def run():
        if not acts:
            return
        obs = drive(pkg, module, acts)
        bad = None
        for i, (e, o) in enumerate(zip(exp, obs)):
            if e is None or pos[i][0] == bad:
                continue
            ctx.impl_steps += 1
            if not cmp(e, enc(o)):
                w, k = pos[i]
                bad = w
                hist = [a for a, _ in ws[w][: k + 1]]
                ctx.violation(what, {"module": module, "history": hist[-40:], "step": k, "expected": dec(e), "observed": o},
                              key=key(hist, o) if key else None)
                if len(ctx.violations) >= 5:
                    return
        acts.clear(), exp.clear(), pos.clear()

    for w, walk in enumerate(ws):
        acts.append({"op": "reset", **(setup or {})})
        exp.append(None)
        pos.append(None)
        for k, (a, o) in enumerate(walk):
            acts.append(dec(a))
            exp.append(o)
            pos.append((w, k))
        ctx.traces += 1
        if len(acts) > chunk:
            run()
            if len(ctx.violations) >= 5:
                return
    run()


def validate(ctx, module, traces, consts=None, workers=8, timeout=800, what="recorded trace of the real code", key=None,
             tag="", per_file=4000, spec="TraceSpec"):
    """traces: list of lists of {"a": act, "o": obs}. TLC must accept each as a behaviour of the specification."""
    if not traces:
        return
    chunks, cur, n = [], [], 0
    for t in traces:
        cur.append(t)
        n += len(t)
        if n >= per_file:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    from concurrent.futures import ThreadPoolExecutor
    par = max(1, min(len(chunks), 4 if workers >= 4 else 1))
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda ic: _validate1(ctx, module, ic[1], consts, max(1, workers // par), timeout,
                                                f"{tag}-{ic[0]}", spec), enumerate(chunks)))
    for ch, (r, bad) in zip(chunks, res):
        ctx.states += r["distinct"]
        ctx.transitions += r["generated"]
        ctx.traces += len(ch)
        ctx.impl_steps += sum(len(t) for t in ch)
        for tid, i, expd in bad:
            t = ch[tid - 1]
            if i - 1 >= len(t):
                continue
            ctx.violation(what, {"module": module, "history": [x["a"] for x in t[max(0, i - 400): i]], "step": i,
                                 "expected": expd, "observed": t[i - 1]["o"]},
                          key=key([x["a"] for x in t[:i]], t[i - 1]["o"]) if key else None)


def _validate1(ctx, module, traces, consts, workers, timeout, tag, spec):
    fn = os.path.join(ctx.work, f"trace-{module}{tag}.json")
    with open(fn, "w") as fh:
        json.dump([[{"a": enc(x["a"]), "o": enc(x["o"])} for x in t] for t in traces], fh)
    cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n" + cfg_consts(consts)
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, tag="-trace" + tag, env={"TRACE_FILE": fn})
    done = set()
    for m in re.finditer(r'^<<"DONE", (\d+), (\d+)>>$', r["out"], re.M):
        if int(m.group(2)) != len(traces[int(m.group(1)) - 1]):
            raise ToolError(f"{module}: a trace accepted before its end")
        done.add(int(m.group(1)))
    far = {}
    for m in re.finditer(r'^<<"MISMATCH", (\d+), (\d+), (.*)>>$', r["out"], re.M):
        tid, i = int(m.group(1)), int(m.group(2))
        try:
            e = dec(json.loads(json.loads(m.group(3))))
        except ValueError:
            e = m.group(3)
        if tid not in far or i > far[tid][0]:
            far[tid] = (i, e)
    bad = []
    if r["rc"] != 0:
        raise ToolError(f"TLC failed on {module}: " + tlc_error(r))
    for tid in range(1, len(traces) + 1):
        if tid not in done:
            if tid not in far:
                raise ToolError(f"{module}: trace {tid} neither accepted nor rejected")
            bad.append((tid, *far[tid]))
    if not bad:
        os.remove(fn)
    return r, bad


def run_traces(ctx, pkg, dmod, module, act_lists, consts=None, setup=None, key=None, timeout=300, post=None, tag="",
               workers=8, per_file=4000):
    """Drive the real code with each list of actions from a fresh instance and validate what it did."""
    acts = []
    for l in act_lists:
        acts.append({"op": "reset", **(setup or {})})
        acts += l
    obs = drive(pkg, dmod, acts, timeout=timeout)
    traces, i = [], 0
    for l in act_lists:
        i += 1
        t = []
        for a in l:
            if i < len(obs):
                t.append({"a": a, "o": obs[i]})
            i += 1
        if t:
            if post:
                t = post(t)
            traces.append(t)
    if traces:
        ctx.sample({"act": traces[0][-1]["a"], "obs": traces[0][-1]["o"]})
    validate(ctx, module, traces, consts=consts, key=key, tag=tag, workers=workers, per_file=per_file)
    return traces

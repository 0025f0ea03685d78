"""Shared machinery of the checks: building, running TLC, drivers, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZKC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLAJAR = os.environ.get("TLAJAR", "/opt/veriftools/tla/tla2tools.jar")

GOENV = dict(os.environ)
GOENV.update({"GOENV": "off", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off",
              "GOFLAGS": "-mod=mod", "GOPATH": "/root/go",
              "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
              "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOFLAGS": "-mod=mod", "CGO_ENABLED": os.environ.get("CGO_ENABLED", "1")})


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, msg, replay=None, key=None):
        super().__init__(msg)
        self.msg, self.replay, self.key = msg, replay, key


class Ctx:
    """One run of one check."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="zkcv-%s-" % prop)
        os.chmod(self.work, 0o755)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []      # (message, replay path, key)
        self.known = load_known(prop)
        self.known_hit = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(self.cov.get(k), (int, float)):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def violation(self, msg, replay_obj=None, key=None):
        """Record a violation seen on the real code. key identifies it in known-findings."""
        for k, what in self.known.items():
            if key is not None and key == k:
                self.known_hit[k] = what
                return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "message": msg, "key": key, "seed": self.seed,
                       "tier": self.tier, "replay": replay_obj}, f, indent=1, default=str)
        self.violations.append((msg, path, key))
        self.log("violation:", msg[:2000])

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for m, p, k in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s tier=%s wall=%.1fs" % (self.prop, self.tier, wall))
        return 0


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> key=<key> <what fails>' and 'fixed: ...'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def sh(cmd, timeout=600, env=None, cwd=None, check=True, input=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, cwd=cwd, input=input)
    except subprocess.TimeoutExpired as e:
        raise CheckError("timeout after %ss: %s\n%s" % (timeout, cmd, (e.stdout or b"")[-2000:]))
    out = r.stdout.decode("utf-8", "replace")
    if check and r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, cmd, out[-6000:]))
    return r.returncode, out


def go_build(ctx, pkg, out, cwd=None, race=False, extra=()):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["go", "build"] + (["-race"] if race else []) + list(extra) + ["-o", out, pkg]
    sh(cmd, timeout=800, env=GOENV, cwd=cwd)
    return out


def harness_dir(ctx):
    """A private copy of the Go harness whose go.mod points at the tree under test."""
    d = os.path.join(ctx.work, "harness")
    if not os.path.exists(d):
        shutil.copytree(os.path.join(VERIF, "harness"), d)
        gm = os.path.join(d, "go.mod")
        s = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(s)
    return d


def build_driver(ctx, race=False):
    out = os.path.join(ctx.work, "bin", "zkh" + ("-race" if race else ""))
    if not os.path.exists(out):
        go_build(ctx, ".", out, cwd=harness_dir(ctx), race=race)
    return out


def build_repo(ctx, pkg, name, race=False):
    out = os.path.join(ctx.work, "bin", name)
    if not os.path.exists(out):
        env = dict(GOENV)
        env["GOFLAGS"] = "-mod=readonly"
        os.makedirs(os.path.dirname(out), exist_ok=True)
        sh(["go", "build"] + (["-race"] if race else []) + ["-o", out, pkg], timeout=800, env=env, cwd=REPO)
    return out


# ---------------------------------------------------------------- TLC

STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")
SIMSTAT = re.compile(r"The number of states generated: ([\d,]+)")
DIAM = re.compile(r"The depth of the complete state graph search is (\d+)")


def tlc(ctx, module, cfg, env=None, args=(), workers="auto", timeout=600, heap="4g", deadlock=False):
    """Run TLC on spec/<module>.tla with the text cfg. Returns (rc, output)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfgp = os.path.join(d, module + "_run.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cp = TLAJAR
    extra = os.path.join(os.path.dirname(TLAJAR), "CommunityModules-deps.jar")
    for cand in sorted(os.listdir(os.path.dirname(TLAJAR))):
        if cand.endswith(".jar") and cand != os.path.basename(TLAJAR):
            cp += ":" + os.path.join(os.path.dirname(TLAJAR), cand)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfgp]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [os.path.join(d, module + ".tla")]
    r = subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=e, cwd=d)
    out = r.stdout.decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out


def cfg_text(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(),
             postcondition=None, symmetry=None, view=None, extra=""):
    s = "SPECIFICATION %s\n" % spec
    if constants:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for i in properties:
        s += "PROPERTY %s\n" % i
    for i in constraints:
        s += "CONSTRAINT %s\n" % i
    for i in action_constraints:
        s += "ACTION_CONSTRAINT %s\n" % i
    if postcondition:
        s += "POSTCONDITION %s\n" % postcondition
    if symmetry:
        s += "SYMMETRY %s\n" % symmetry
    if view:
        s += "VIEW %s\n" % view
    return s + "CHECK_DEADLOCK FALSE\n" + extra


def model_check(ctx, module, what, constants, invariants=(), properties=(), constraints=(), timeout=600,
                spec="Spec", min_states=10, reach=(), **kw):
    """Exhaustive TLC run of the specification itself. A failure here is an error of the
    specification (the real code is not involved), reported as a check error."""
    cfg = cfg_text(spec, constants, invariants, properties, constraints, **kw)
    rc, out = tlc(ctx, module, cfg, timeout=timeout)
    m = None
    for m in STAT.finditer(out):
        pass
    if rc != 0 or m is None:
        raise CheckError("model checking %s (%s) failed rc=%d:\n%s" % (module, what, rc, out[-5000:]))
    gen, dist, left = [int(x.replace(",", "")) for x in m.groups()]
    if left != 0 or dist < min_states:
        raise CheckError("model checking %s (%s): %d distinct, %d left" % (module, what, dist, left))
    ctx.add(states=dist, transitions=gen)
    for r in reach:     # vacuity: each of these state predicates must be reachable
        expect_model_violation(ctx, module, what + " reaches " + r, constants, ["Not" + r], spec=spec, constraints=constraints,
                               timeout=timeout)
    ctx.log("TLC %s [%s]: %d distinct states, %d transitions, complete" % (module, what, dist, gen))
    return dist, gen


def expect_model_violation(ctx, module, what, constants, invariants=(), properties=(), spec="Spec", timeout=300, **kw):
    """Sensitivity: a deliberately weakened specification must violate its property."""
    rc, out = tlc(ctx, module, cfg_text(spec, constants, invariants, properties, **kw), timeout=timeout)
    if "is violated" not in out and "was violated" not in out and "were violated" not in out:
        raise CheckError("%s (%s): the weakened model was expected to violate %s\n%s" % (
            module, what, list(invariants) + list(properties), out[-2000:]))


def simulate(ctx, module, constants, num, depth, seed=None, spec="Spec", constraints=(), invariants=(), timeout=300, tag="TRACE"):
    """Generate behaviours by TLC simulation: the module prints tag plus a JSON text per behaviour."""
    cfg = cfg_text(spec, constants, invariants=invariants, constraints=constraints)
    rc, out = tlc(ctx, module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                          str(ctx.seed if seed is None else seed)], workers=1, timeout=timeout)
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    m = SIMSTAT.search(out)
    if rc != 0 or not res:
        raise CheckError("simulation of %s failed rc=%d:\n%s" % (module, rc, out[-4000:]))
    if m:
        ctx.add(transitions=int(m.group(1).replace(",", "")))
    return res


def validate(ctx, module, events, constants, spec="TraceSpec", timeout=600, workers=1, invariants=(), extra_env=None,
             heap="4g"):
    """Check that the recorded events are a behaviour of the specification.
    Returns None if accepted, else (index of first event that cannot be explained, message)."""
    fn = os.path.join(ctx.work, "trace-%d.ndjson" % time.time_ns())
    with open(fn, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    env = {"TRACE": fn}
    env.update(extra_env or {})
    rc, out = tlc(ctx, module, cfg_text(spec, constants, invariants=invariants, postcondition="TraceAccepted"),
                  env=env, workers=workers, timeout=timeout, heap=heap)
    m = None
    for m in STAT.finditer(out):
        pass
    d = DIAM.search(out)
    if rc == 124:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        shutil.copy(fn, os.path.join(BUILD, "replay", "timeout-%s-%d.ndjson" % (ctx.prop, time.time_ns())))
    os.unlink(fn)
    if m:
        ctx.add(states=int(m.group(2).replace(",", "")), transitions=int(m.group(1).replace(",", "")))
    if rc == 0 and "Model checking completed. No error has been found" in out:
        return None
    if invariants and re.search(r"Invariant \S+ is violated", out):
        return (-1, re.search(r"Invariant \S+ is violated", out).group(0) + out[-1500:])
    if d is None or "TraceAccepted" not in out:
        raise CheckError("trace validation with %s failed rc=%d:\n%s" % (module, rc, out[-5000:]))
    n = int(d.group(1)) - 1      # events consumed by the longest match
    return (n, "event %d of %d cannot be explained by %s" % (n + 1, len(events), module))


def split_traces(events, reset="reset"):
    out = []
    for e in events:
        if e.get("op") == reset or not out:
            out.append([])
        out[-1].append(e)
    return out


def context_of(events, idx, reset="reset", n=40):
    """The trace (from the last reset) up to the offending event."""
    s = idx
    while s > 0 and events[s].get("op") != reset:
        s -= 1
    return events[s:idx + 1][-n:]


def read_ndjson(path):
    res = []
    for l in open(path):
        l = l.strip()
        if l:
            try:
                res.append(json.loads(l))
            except ValueError:  # torn by a crash of the driver
                break
    return res


def run_driver(ctx, args, behaviours=None, timeout=300, race=False, env=None, ok_rcs=(0,)):
    """Run the Go driver on behaviours (list of JSON values, one per line); returns recorded events."""
    drv = build_driver(ctx, race)
    inp = os.path.join(ctx.work, "in-%d.ndjson" % time.time_ns())
    outp = inp.replace("in-", "out-")
    with open(inp, "w") as f:
        for b in behaviours or []:
            f.write(json.dumps(b) + "\n")
    e = dict(os.environ)
    e.update({"TMPDIR": ctx.work, "VERIF_SEED": str(ctx.seed)})
    e.update(env or {})
    try:
        r = subprocess.run([drv, args[0], "-in", inp, "-out", outp] + [str(a) for a in args[1:]], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=ctx.work)
        rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        rc, out = -999, (ex.stdout or b"").decode("utf-8", "replace")
    evs = read_ndjson(outp) if os.path.exists(outp) else []
    return rc, out, evs


def replay(ctx, args, behaviours, module, constants, what, timeout=300, race=False, chunk=4000, env=None, key=None, **kw):
    """Drive the real code through the behaviours and check the recording against the model.
    Returns the events. A rejected trace is a violation; it is reported with its trace."""
    rc, out, evs = run_driver(ctx, args, behaviours, timeout=timeout, race=race, env=env)
    if rc not in (0,):
        # the driver executes the code under test in-process: a crash or hang of
        # it that is not caused by the driver is an observation
        tr = split_traces(evs)
        ctx.violation("%s: the code under test crashed or hung (rc=%s): %s" % (what, rc, out[-1500:]),
                      {"args": args, "last_trace": tr[-1][-60:] if tr else None, "output": out[-4000:]}, key=key)
        return evs
    traces = split_traces(evs)
    n = len(traces)
    i = 0
    # a rejected trace does not hide the ones after it
    while i < n:
        part, cnt = [], 0
        j = i
        while j < n and (cnt == 0 or cnt + len(traces[j]) <= chunk):
            part += traces[j]
            cnt += len(traces[j])
            j += 1
        v = validate(ctx, module, part, constants, **kw)
        if v is None:
            ctx.add(traces_validated_against_impl=j - i)
            i = j
            continue
        idx = max(v[0], 0)
        bad = context_of(part, min(idx, len(part) - 1), n=10**9)
        ctx.violation("%s: %s: %s" % (what, v[1], json.dumps(bad[-4:])),
                      {"args": args, "module": module, "trace": bad[-400:]}, key=key)
        if len(ctx.violations) >= 3:
            return evs
        # continue after the rejected trace
        pos = 0
        for t in range(i, j):
            if pos + len(traces[t]) > idx:
                i = t + 1
                break
            pos += len(traces[t])
    return evs


def replay_par(ctx, args, behaviours, module, constants, what, jobs=8, timeout=600, chunk=2000, key=None, env=None, vjobs=6, heap="2g", **kw):
    """As replay, with several driver processes and several validations at a time."""
    from concurrent.futures import ThreadPoolExecutor
    build_driver(ctx)
    jobs = max(1, min(jobs, len(behaviours)))
    parts = [behaviours[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda p: run_driver(ctx, args, p, timeout=timeout, env=env), parts))
    traces, failed = [], []
    for (rc, out, evs), part in zip(res, parts):
        tr = split_traces(evs)
        traces += tr
        if rc == 3:
            ctx.violation("%s: %s" % (what, out[-2000:]), {"args": args})
        elif rc != 0:
            # a driver that does not come back or dies: the behaviour it was in is the one to look at
            # unless what was recorded shows a violation
            failed.append("%s: driver failed (rc=%s) after %d of %d behaviours: %s" % (what, rc, len(tr), len(part), out[-3000:]))
            traces.pop() if tr else None
    groups, cur, n = [], [], 0
    for t in traces:
        if cur and n + len(t) > chunk:
            groups.append(cur)
            cur, n = [], 0
        cur.append(t)
        n += len(t)
    if cur:
        groups.append(cur)

    def run(group):
        """Rejected traces of the group, with where; the ones after a rejected one are looked at, too."""
        bad, acc, i = [], 0, 0
        while i < len(group):
            evs = [e for t in group[i:] for e in t]
            v = validate(ctx, module, evs, constants, heap=heap, **kw)
            if v is None:
                return bad, acc + len(group) - i
            idx, pos = max(v[0], 0), 0
            for t in range(i, len(group)):
                if pos + len(group[t]) > idx:
                    bad.append((group[t], idx - pos, v[1]))
                    acc += t - i
                    i = t + 1
                    break
                pos += len(group[t])
            if len(bad) >= 3:
                break
        return bad, acc
    with ThreadPoolExecutor(vjobs) as ex:
        out = list(ex.map(run, groups))
    for bad, acc in out:
        ctx.add(traces_validated_against_impl=acc)
        for t, at, msg in bad:
            if len(ctx.violations) < 5:
                ctx.violation("%s: %s cannot be explained: %s" % (what, json.dumps(t[at]), json.dumps(t[max(0, at - 4):at])),
                              {"args": args, "module": module, "at": at, "trace": t[max(0, at - 400):at + 1]}, key=key)
    if failed and not ctx.violations:
        raise CheckError(failed[0])
    for f in failed:
        ctx.log(f)
    return [e for t in traces for e in t]


def binding_control(ctx, module, events, constants, corrupt, what, **kw):
    """Negative control of the binding: a corrupted recording must be rejected."""
    evs = corrupt([dict(e) for e in events])
    if evs is None:
        return
    if validate(ctx, module, evs, constants, **kw) is None:
        raise CheckError("binding control: %s accepted a corrupted trace (%s)" % (module, what))


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check.py <property> (%s)" % " ".join(sorted(registry)))
        return 2
    prop = sys.argv[1]
    fn, level = registry[prop]
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        return ctx.finish()
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        if ctx.violations:
            return ctx.finish()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2

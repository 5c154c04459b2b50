"""Shared machinery of the checks: build the executor, run cases through the real
code, run TLC, report. Nothing here knows what is right."""
import hashlib, json, os, random, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
# two executors: hx for the libraries, hxq for what needs the list of SQF commands
HARNESSES = {"hx": os.path.join(VERIF, "harness"), "hxq": os.path.join(VERIF, "harness-sqf")}
WITH_HXQ = {"cli", "sqf"}
CORES = 8
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- executor
PARTS = {"hx": ("libs",), "hxq": ("libs", "bin")}


def exe(which):
    return os.path.join(HARNESSES[which], "target", "debug", which)


def tree_hash(which):
    h = hashlib.sha256()
    top = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    files = [p for p in top if os.path.exists(p)]
    for part in PARTS[which]:
        for base, dirs, names in os.walk(os.path.join(REPO, part)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "tests", ".git"))
            files += [os.path.join(base, n) for n in sorted(names)]
    for p in sorted(files):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build(which="hx"):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    home = HARNESSES[which]
    stamp = os.path.join(home, "target", ".repo-hash")
    now = tree_hash(which)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if os.path.isdir(os.path.join(home, "target", "debug")) and old != now:
        # cargo decides by modification times; the content is what counts
        crates = []
        for part in PARTS[which]:
            for base in [os.path.join(REPO, part)] + [os.path.join(REPO, part, d) for d in sorted(os.listdir(os.path.join(REPO, part)))]:
                t = os.path.join(base, "Cargo.toml")
                if os.path.exists(t):
                    for line in open(t):
                        if line.startswith("name"):
                            crates.append(line.split('"')[1])
                            break
        lock = open(os.path.join(home, "Cargo.lock")).read()
        crates = [c for c in crates if '"%s"' % c in lock]
        subprocess.run(["cargo", "clean", "--offline"] + [a for c in crates for a in ("-p", c)], cwd=home, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=home, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build of the executor failed:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    log("executor %s built" % which)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _count(path, state):
    """complete lines in a growing file"""
    try:
        with open(path, "rb") as f:
            f.seek(state[0])
            data = f.read()
    except FileNotFoundError:
        return state[1]
    state[0] += len(data)
    state[1] += data.count(b"\n")
    return state[1]


def _run_chunk(cases, work, name, stall, prog):
    cin, cout = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
    with open(cin, "w") as f:
        for c in cases:
            f.write(json.dumps(c, ensure_ascii=False) + "\n")
    open(cout, "w").close()
    state, bad = [0, 0], 0
    while state[1] < len(cases):
        p = subprocess.Popen([prog, cin, cout, str(state[1])], preexec_fn=_limits, cwd=work,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        last, t = state[1], time.time()
        hung = False
        while p.poll() is None:
            try:
                p.wait(timeout=0.2)
            except subprocess.TimeoutExpired:
                pass
            n = _count(cout, state)
            if n != last:
                last, t = n, time.time()
            elif time.time() - t > stall and p.poll() is None:
                p.kill()
                hung = True
                p.wait()
        err = p.stderr.read()
        p.stderr.close()
        _count(cout, state)
        if state[1] < len(cases):
            if p.returncode == 0:
                raise ToolError("executor stopped early")
            # the case at this position took the process down
            with open(cout, "rb+") as f:      # drop a partial line
                f.truncate(f.read().rfind(b"\n") + 1)
            obs = {"hang": "no answer"} if hung else {"crash": p.returncode, "msg": err[-300:]}
            with open(cout, "a") as f:
                f.write(json.dumps(obs) + "\n")
            state = [0, 0]
            _count(cout, state)
            bad += 1
            if bad > 3:
                with open(cout, "a") as f:
                    for _ in range(len(cases) - state[1]):
                        f.write('{"unjudged":true}\n')
                break
    with open(cout) as f:
        obs = [json.loads(l) for l in f]
    os.unlink(cin), os.unlink(cout)
    for o in obs:
        if "tool_error" in o:
            raise ToolError("executor: " + o["tool_error"])
    return obs


def execute(cases, stall=None, jobs=CORES):
    """observations of the real code, one per case"""
    if not cases:
        return []
    stall = stall or (90 if cases[0]["sys"] == "cli" else 20)
    work = tempfile.mkdtemp(prefix="hx-")
    try:
        prog = exe("hxq" if cases[0]["sys"] in WITH_HXQ else "hx")
        if cases[0]["sys"] == "cli":     # a user without rights runs it
            os.chmod(work, 0o755)
            prog = shutil.copy(prog, os.path.join(work, "hxq"))
        n = min(jobs, max(1, len(cases) // 4))
        parts = [cases[i::n] for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda a: _run_chunk(a[1], work, "c%d" % a[0], stall, prog), enumerate(parts)))
        out = [None] * len(cases)
        for i, r in enumerate(res):
            out[i::n] = r
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- TLC
JAR = ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


# TLC keeps only the low byte of characters when states go to its queue, so the
# specifications are ASCII: "~" stands for a letter of two bytes in UTF-8, "`" for
# a sign of three. Programs and observations are translated on the way in and out.
FOREIGN = [("é", "~"), ("€", "`")]


def to_spec(line):
    if line.isascii():
        return line
    for a, b in FOREIGN:
        line = line.replace(b, "|").replace(a, b)
    return line if line.isascii() else "".join(c if c.isascii() else "|" for c in line)


def from_spec(line):
    for a, b in FOREIGN:
        line = line.replace(b, a)
    return line


class Tlc:
    def __init__(self):
        self.states = self.transitions = 0
        self.lines = []
        self.ok = False
        self.out = ""


def tlc(module, cfg=None, env=None, workers=CORES, timeout=800, extra=(), heap="10g", on_line=None, consts=None):
    """runs TLC on spec/<module>.tla; printed JSON lines come back parsed;
    consts overrides CONSTANTS of the configuration"""
    meta = tempfile.mkdtemp(prefix="tlc-")
    if consts:
        text = open(os.path.join(SPEC, cfg or module + ".cfg")).read().split("\n")
        for k, v in consts.items():
            hit = [i for i, l in enumerate(text) if l.split("=")[0].strip() == k]
            assert len(hit) == 1, k
            text[hit[0]] = " %s = %s" % (k, v)
        cfg = os.path.join(meta, "model.cfg")
        with open(cfg, "w") as f:
            f.write("\n".join(text))
    cmd = (["java", "-XX:+UseParallelGC", "-Xss64m", "-Dfile.encoding=UTF-8",
            "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstderr.encoding=UTF-8", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta]
           + JAR + ["tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
                    "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"])
    r = Tlc()
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    rest = []
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding="utf-8")
        import threading
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        for line in p.stdout:
            if line.startswith('"{') or line.startswith('"['):
                v = json.loads(from_spec(json.loads(line)))
                (on_line or r.lines.append)(v)
            else:
                rest.append(line)
        p.wait()
        killer.cancel()
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.out = "".join(rest)
    r.ok = p.returncode == 0 and "No error has been found" in r.out
    for line in rest:
        if line[:1].isdigit() and "states generated" in line and "distinct states found" in line:
            w = line.replace(",", "").split()
            r.transitions, r.states = int(w[0]), int(w[3])
    if p.returncode == -9:
        raise ToolError("TLC ran out of time on " + module)
    r.violated = None
    for line in rest:
        if line.startswith("Error: Invariant ") and "is violated" in line:
            r.violated = line.split()[2]
    if not r.ok and r.violated is None:
        raise ToolError("TLC failed on %s:\n%s" % (module, r.out[max(0, r.out.find("Starting...")):][:3000]))
    log("TLC %s: %d states, %d printed, %.1fs" % (module, r.states, len(r.lines), time.time() - t))
    return r


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.notes = []
        self.assumptions = []
        self.known = []
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=<id> key=<key> <what fails>
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                self.known.append((key[len("key="):], what))
        self.known_seen = set()
        self.t = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc(self, r):
        self.add("states", r.states)
        self.add("transitions", r.transitions)

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, replay, key=None):
        """replay: everything needed to see it again; key: what known findings are listed under"""
        for k, w in self.known:
            if key is not None and k == key:
                self.known_seen.add(k)
                return
        self.violations.append((what, replay))

    def finish(self):
        for k, w in self.known:
            if k in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1, ensure_ascii=False)
            w, r = self.violations[0]
            print("%d violation(s); first: %s" % (len(self.violations), w))
            print(json.dumps(r, ensure_ascii=False)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        print("property %s held: %s" % (self.prop, {k: v for k, v in self.cov.items() if k != "samples"}))
        return 0


def judge(rep, module, cases, cfg=None, env=None, key_of=None, name="traces", what="", workers=CORES, timeout=800, keep=None):
    """Direction B: run the cases on the code, let TLC judge every observation.
    cases: dicts with the executor's input; the observation goes in as 'obs'."""
    obs = execute(cases)
    live = [(c, o) for c, o in zip(cases, obs) if "unjudged" not in o]
    work = tempfile.mkdtemp(prefix="trace-")
    try:
        path = os.path.join(work, "cases.ndjson")
        with open(path, "w") as f:
            for c, o in live:
                d = {k: v for k, v in c.items() if keep is None or k in keep}
                d["obs"] = o
                f.write(to_spec(json.dumps(d, ensure_ascii=False)) + "\n")
        r = tlc(module, cfg, env=dict(env or {}, CASES=path), workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rep.tlc(r)
    if r.violated:
        raise ToolError("specification invariant %s is violated in %s:\n%s" % (r.violated, module, r.out[max(0, r.out.find("Starting...")):][:3000]))
    verdict = {}
    for v in r.lines:
        verdict[v["i"]] = v
    missing = [i for i in range(1, len(live) + 1) if i not in verdict]
    if missing:
        raise ToolError("%d cases not judged by %s, first %s" % (len(missing), module, live[missing[0] - 1][0]))
    n = {"ok": 0, "bad": 0, "domain": 0}
    for i, (c, o) in enumerate(live, 1):
        v = verdict[i]
        n[v["v"]] += 1
        if v["v"] == "bad":
            rep.violation("%s: the code's answer is not one the specification allows" % (what or name),
                          {"case": c, "observed": o, "specified": v.get("exp")},
                          key=v.get("key") or c.get("key"))
        elif v["v"] == "ok" and c.get("key"):
            pass
    rep.add("traces_validated_against_impl", n["ok"] + n["bad"])
    rep.add(name, n["ok"])
    if n["domain"]:
        rep.add(name + "_outside_domain", n["domain"])
    for c, o in live[:2]:
        rep.sample({"case": c, "observed": o})
    log("%s: %s" % (name, n))
    return n


def model(rep, module, cfg, name, consts=None, **kw):
    """Direction A, first half: explore the model completely, all its invariants
    checked; returns what it printed."""
    r = tlc(module, cfg, consts=consts, **kw)
    rep.tlc(r)
    if r.violated:
        raise ToolError("specification invariant %s is violated in %s:\n%s" % (r.violated, module, r.out[max(0, r.out.find("Starting...")):][:3000]))
    rep.add(name + "_behaviours", len(r.lines))
    return r.lines


def unify(e, o, env=None):
    """does the observation o fit what the specification printed? A record with the
    field "etc" may have further fields; strings "$x" stand for unknown values, the
    same one for the same name and, if written "$x", different names may coincide."""
    env = {} if env is None else env
    if isinstance(e, str) and e.startswith("$"):
        return env.setdefault(e, o) == o
    if e == [] and o == {}:       # TLC has one empty function
        return True
    if isinstance(e, dict):
        if not isinstance(o, dict) or any(k not in o for k in e if k != "etc"):
            return False
        if "etc" not in e and len(e) != len(o):
            return False
        return all(unify(v, o[k], env) for k, v in e.items() if k != "etc")
    if isinstance(e, list):
        return isinstance(o, list) and len(e) == len(o) and all(unify(a, b, env) for a, b in zip(e, o))
    return type(e) is type(o) and e == o


def replay(rep, cases, expected, same=None, name="behaviours", what=""):
    """Direction A: behaviours TLC generated, replayed on the code."""
    obs = execute(cases)
    same = same or unify
    ok = 0
    for c, e, o in zip(cases, expected, obs):
        if "unjudged" in o:
            continue
        if same(e, o):
            ok += 1
        else:
            rep.violation("%s: the code departs from the specified behaviour" % (what or name),
                          {"case": c, "observed": o, "specified": e}, key=c.get("key"))
    rep.add("traces_validated_against_impl", ok)
    rep.add(name, ok)
    for c, o in list(zip(cases, obs))[-2:]:
        rep.sample({"case": c, "observed": o})
    log("%s: %d of %d agree" % (name, ok, len(cases)))
    return ok


def main(prop, fn, level="model_checking"):
    rep = None
    try:
        rep = Report(prop, level)
        build("hxq" if prop[0] in "EQ" else "hx")
        fn(rep)
        sys.exit(rep.finish())
    except ToolError as e:
        if rep is not None and rep.violations:
            log(str(e))
            sys.exit(rep.finish())
        print("ERROR of the check itself: %s" % e)
        sys.exit(2)

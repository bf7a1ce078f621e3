"""Shared machinery: builds the harness, runs TLC, replays behaviours, validates traces."""
from concurrent.futures import ThreadPoolExecutor
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(msg):
    print(msg, flush=True)


# ---------------------------------------------------------------- harness

def build_harness():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cap-lints allow", CARGO_TARGET_DIR=os.path.join(BUILD, "harness"),
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    log("harness built from /repo in %.1fs" % (time.time() - t))
    return os.path.join(BUILD, "harness", "debug", "vp-harness")


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(binary, cases, tmp, name, timeout=240):
    """Replays the cases (list of dicts, ids = index) on the real code. Returns list of obs.
    An abort or a hang is an observation too ("ABORT" / "HANG")."""
    obs = [None] * len(cases)
    start = 0
    deaths = 0
    while start < len(cases):
        cf = os.path.join(tmp, name + ".cases")
        of = os.path.join(tmp, name + ".obs")
        pf = os.path.join(tmp, name + ".prog")
        with open(cf, "w") as f:
            for c in cases[start:]:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        open(pf, "w").close()
        p = subprocess.Popen([binary, "run", cf, of, pf], preexec_fn=_limit, cwd=tmp,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        mark, last, verdict = time.time(), None, None
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                cur = open(pf).read()
                if cur != last:
                    last, mark = cur, time.time()
                elif time.time() - mark > 20:
                    p.kill()
                    p.wait()
                    verdict = "HANG"
                    break
        err = p.stderr.read().decode("utf8", "replace")
        n = 0
        with open(of) as f:
            for line in f:
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                obs[start + n] = o["obs"]
                n += 1
        if p.returncode == 0:
            if n != len(cases) - start:
                raise ToolError("harness lost observations")
            break
        if verdict is None:
            if p.returncode > 0:
                raise ToolError("harness failed: " + err[-2000:])
            verdict = "ABORT"
        cur = open(pf).read().strip()
        dead = int(cur) if cur else 0
        # observations after the last flush are lost: redo the part before the death without it
        if n < dead:
            redo = run_harness(binary, cases[start + n:start + dead], tmp, name + "r", timeout)
            obs[start + n:start + dead] = redo
        obs[start + dead] = verdict
        start += dead + 1
        deaths += 1
        if deaths >= 3:
            for i in range(start, len(cases)):
                obs[i] = None
            break
    return obs


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.cases = []
        self.error = None
        self.violated = None
        self.trace = {}
        self.raw = ""
        self.wall = 0.0


def run_tlc(module, tmp, constants=None, cfg_lines=(), env=None, workers=8, simulate=None,
            seed=1, timeout=600, heap="6g", init="Init", next_="Next", invariants=(),
            properties=(), keep=None):
    """Runs TLC on spec/<module>.tla with a generated config. Collects printed cases (@@...)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cfg = os.path.join(meta, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("INIT %s\nNEXT %s\n" % (init, next_))
        for k, v in (constants or {}).items():
            f.write("CONSTANT %s = %s\n" % (k, tla(v)))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        f.write("CHECK_DEADLOCK FALSE\n")
        for l in cfg_lines:
            f.write(l + "\n")
    args = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
            "-DTLA-Library=" + SPEC,
            "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfg, "-metadir", meta,
            "-noGenerateSpecTE", "-nowarning", "-fp", "1"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(seed)]
    args.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    out = os.path.join(meta, "stdout")
    with open(out, "w") as fo:
        try:
            p = subprocess.run(args, cwd=meta, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
    r = Tlc()
    r.wall = time.time() - t
    rest, dumped = [], []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"@@'):
                dumped.append(line)
            else:
                rest.append(line)
    for line in sorted(dumped):  # TLC's workers print in any order; what is sampled later must not depend on it
        try:
            r.cases.append(json.loads(json.loads(line)[2:]))
        except ValueError as ex:
            raise ToolError("cannot parse TLC output line: %s (%s)" % (line[:300], ex))
    r.raw = "".join(rest)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.raw)
    if m:
        r.states = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", r.raw)
        if m:
            r.states = r.distinct = int(m[-1].replace(",", ""))
    m = re.search(r"Error: Invariant (\w+) is violated", r.raw)
    if m:
        r.violated = m.group(1)
    m = re.search(r"Error: (?:Action property|Temporal properties) ?(\w*)", r.raw)
    if m and not r.violated:
        r.violated = m.group(1) or "property"
    if p.returncode not in (0,) and not r.violated:
        r.error = brief(r.raw)
    # last state of an error trace: variable bindings
    for mm in re.finditer(r"^(?:/\\ )?(\w+) = (.*)$", r.raw, re.M):
        r.trace[mm.group(1)] = mm.group(2)
    shutil.rmtree(meta, ignore_errors=True)
    return r


def brief(raw):
    """the part of TLC's output that says what went wrong"""
    keep = []
    on = False
    for l in raw.splitlines():
        if l.startswith(("Parsing file", "Semantic processing", "Linting", "Computed", "Finished", "Starting")):
            continue
        if "rror" in l or "@!@" in l:
            on = True
        if on and l.strip():
            keep.append(l)
    return "\n".join(keep)[:2500]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ToolError("constant %r" % (v,))


# ---------------------------------------------------------------- a check run

class Run:
    """Collects coverage and violations of one check run of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.binary = None
        self.assumptions = []
        self.known_list = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking of the specification, producing behaviours
    def model(self, module, constants=None, invariants=("Inv",), simulate=None, dump=True, properties=(),
              timeout=600, **kw):
        inv = list(invariants) + (["Dump"] if dump else [])
        r = run_tlc(module, self.tmp, constants, invariants=inv, simulate=simulate, seed=self.seed,
                    properties=properties, timeout=timeout, **kw)
        if r.error or r.violated:
            # the model never depends on the code under test: this is a tool/spec error
            raise ToolError("TLC on %s: %s\n%s" % (module, r.violated, r.error or brief(r.raw)))
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append({"spec": module, "mode": "simulate" if simulate else "exhaustive",
                           "constants": {k: str(v) for k, v in (constants or {}).items()},
                           "distinct_states": r.distinct, "states_generated": r.states,
                           "behaviours": len(r.cases), "wall_s": round(r.wall, 1)})
        log("  TLC %s %s: %d states, %d behaviours, %.1fs" % (
            module, "simulate" if simulate else "exhaustive", r.distinct, len(r.cases), r.wall))
        return r.cases

    def ensure(self):
        if self.binary is None:
            self.binary = build_harness()
        return self.binary

    # -- execute on the real code
    def execute(self, cases, name):
        t = time.time()
        cs = []
        for i, c in enumerate(cases):
            c = dict(c)
            assert not isinstance(c.get("id"), str), "a case has no id of its own"
            c["id"] = i
            cs.append(c)
        obs = run_harness(self.ensure(), cs, self.tmp, name)
        log("  replayed %d behaviours (%s) on the real code, %.1fs" % (len(cs), name, time.time() - t))
        return cs, obs

    # -- direction 1: behaviours of the specification, with expected observations, replayed on the code
    def replay(self, cases, name, norm=None):
        if not cases:
            raise ToolError("no behaviours for " + name)
        cs, obs = self.execute(cases, name)
        bad = 0
        for c, o in zip(cs, obs):
            if o is None:
                continue
            if "ops" in c:
                exp = [op["exp"] for op in c["ops"]]
                self.steps += len(exp)
            else:
                exp = c["exp"]
                self.steps += 1
            if norm:
                exp, o = norm(c, exp), norm(c, o)
            if exp != o:
                bad += 1
                if bad <= 5:
                    self.violation(name, c, exp, o)
        self.traces += len(cs)
        self.sample(cs, obs, name)
        self.parts.append({"replay": name, "behaviours_replayed_on_code": len(cs), "mismatches": bad})

    # -- direction 2: recorded executions checked against the specification by TLC
    def validate(self, module, cases, name, constants=None, timeout=700, chunks=64, heap="8g"):
        cs, obs = self.execute(cases, name)
        keep = []
        for c, o in zip(cs, obs):
            if o is None:
                continue
            if isinstance(o, str) or has_panic(o):
                self.violation(name, c, "no panic/abort/hang", o)
                continue
            keep.append(dict(c, obs=o))
        self.traces += len(cs)
        self.sample(cs, obs, name)
        size = 8000
        batches = [keep[i:i + size] for i in range(0, len(keep), size)]
        if len(batches) <= 1:
            bad = sum(self._batch(module, b, name, constants, timeout, heap, 8) for b in batches)
        else:
            with ThreadPoolExecutor(4) as ex:
                bad = sum(ex.map(lambda ib: self._batch(module, ib[1], "%s%d" % (name, ib[0]), constants, timeout, "4g", 2),
                                 enumerate(batches)))
        self.steps += sum(len(c.get("ops", [1])) for c in cs)
        self.parts.append({"trace_validation": module, "name": name, "traces": len(cs), "rejected": bad})
        log("  TLC validated %d recorded traces against %s (%d rejected)" % (len(cs), module, bad))

    def _batch(self, module, keep, name, constants, timeout, heap, workers):
        f = os.path.join(self.tmp, name + ".trace")
        keep = list(keep)

        def write():
            with open(f, "w") as fo:
                for rec in keep:
                    # the bytes of a file are not for TLC: its abstract content is
                    fo.write(json.dumps({k: v for k, v in rec.items() if k not in ("hex", "text")}, separators=(",", ":")) + "\n")
        bad = 0
        write()
        while keep and len(self.violations) < 12:
            r = run_tlc(module, self.tmp, constants, env={"VP_TRACE": f}, invariants=["Conforms"],
                        timeout=timeout, heap=heap, workers=workers)
            if r.violated is None and r.error is None:
                if r.distinct < len(keep):
                    raise ToolError("TLC on %s visited %d states for %d traces" % (module, r.distinct, len(keep)))
                self.states += r.distinct
                self.transitions += r.states
                break
            if r.violated is None:
                m = re.search(r"Attempted to (check equality|compare|apply|access|select|check if|enumerate)[^\n]*", r.error)
                k = find_tl(r.raw)
                if not m or k is None:
                    raise ToolError("TLC on %s (trace validation): %s" % (module, r.error))
            else:
                k = find_tl(r.raw)
                if k is None:
                    raise ToolError("cannot locate rejected trace: " + r.raw[-2000:])
            t, l = k
            rec = keep[t - 1]
            bad += 1
            self.violation(name, {k2: v for k2, v in rec.items() if k2 != "obs"},
                           "behaviour allowed by spec/%s.tla (first rejected event: %s)" % (module, l), rec["obs"], event=l)
            if bad >= 3:
                break
            keep.pop(t - 1)
            write()
        return bad

    def sample(self, cs, obs, name):
        for i in (0, len(cs) // 2):
            if i < len(cs) and len(self.samples) < 8:
                s = json.dumps({"what": name, "case": cs[i], "observed": obs[i]})
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def violation(self, name, case, exp, obs, event=None):
        os.makedirs(OUT, exist_ok=True)
        case = {k: v for k, v in case.items() if k != "id"}
        for kf in self.known_list:
            if kf["match"](name, case, exp, obs):
                self.known.append(kf["text"])
                return
        n = len(self.violations) + 1
        path = os.path.join(OUT, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "campaign": name, "case": case, "expected": exp,
                       "observed": obs, "event": event, "seed": self.seed}, f, indent=1)
        self.violations.append(path)
        if n <= 5:
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            d = first_diff(exp, obs)
            log("  %s: %s" % (name, d[:600]))

    def finish(self, level="model_checking"):
        for k in sorted(set(self.known)):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "impl_events_compared": self.steps,
                           "samples": self.samples, "campaigns": self.parts},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            return 1
        log("OK property=%s tier=%s: %d spec states, %d behaviours on the real code (%d events), %.1fs" % (
            self.prop, self.tier, self.states, self.traces, self.steps, time.time() - self.t0))
        return 0


def find_tl(raw):
    t = re.findall(r"^(?:/\\ )?t = (\d+)", raw, re.M)
    l = re.findall(r"^(?:/\\ )?l = (\d+)", raw, re.M)
    if not t:
        return None
    return int(t[-1]), int(l[-1]) if l else 0


def has_panic(o):
    if isinstance(o, str):
        return o == "PANIC"
    if isinstance(o, list):
        return any(has_panic(x) for x in o)
    if isinstance(o, dict):
        return any(has_panic(x) for x in o.values())
    return False


def first_diff(e, o, path=""):
    if type(e) is not type(o) or not isinstance(e, (list, dict)):
        return "%s expected %s observed %s" % (path, json.dumps(e), json.dumps(o))
    if isinstance(e, list):
        for i, (a, b) in enumerate(zip(e, o)):
            if a != b:
                return first_diff(a, b, "%s[%d]" % (path, i))
        return "%s expected %d items observed %d: %s / %s" % (path, len(e), len(o), json.dumps(e), json.dumps(o))
    for k in sorted(set(e) | set(o)):
        if e.get(k, None) != o.get(k, None):
            return first_diff(e.get(k), o.get(k), path + "." + k)
    return path + " equal"


def load_known(prop):
    """known-findings.txt: 'finding: property=<id> campaign=<name> case=<json subset> :: <text>' lines."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"finding: property=(\S+) campaign=(\S+) case=(\{.*\}) :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            sub = json.loads(m.group(3))
            camp = m.group(2)

            def match(name, case, exp, obs, sub=sub, camp=camp):
                return name == camp and all(case.get(k) == v for k, v in sub.items())
            res.append({"match": match, "text": m.group(4)})
    return res

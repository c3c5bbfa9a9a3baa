"""Shared machinery of the checks: builds the drivers from /repo's working tree, runs TLC as a
model checker / stimulus generator / trace judge, and writes the evidence files."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    """The real code did something the specification does not allow."""


WORK = tempfile.mkdtemp(prefix="verif-")
atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))


def env_go():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


# where each driver is laid (virtually, through -overlay) inside the module, so that it may
# import the internal packages it needs
PLACES = {
    "leaf": "internal/zzverif/leaf",
    "domain": "router/virtual/zzverif/domain",
    "data": "internal/zzverif/data",
    "http1": "internal/zzverif/http1",
    "router": "router/inbuilt/zzverif/router",
    "tcpsrv": "internal/zzverif/tcpsrv",
    "app": "internal/zzverif/app",
    "static": "internal/zzverif/static",
}
_built = {}


def _modfile():
    d = os.path.join(WORK, "mod")
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(os.path.join(REPO, "go.mod")) as f:
            mod = f.read()
        mod += "\nreplace github.com/indigo-web/utils => %s/shim/utils\n" % VERIF
        mod += "replace github.com/indigo-web/chunkedbody => %s/shim/chunkedbody\n" % VERIF
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write(mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    return os.path.join(d, "go.mod")


def build(area, race=False, test=False):
    """Build the driver of an area against /repo's working tree; returns the binary's path."""
    key = (area, race, test)
    if key in _built:
        return _built[key]
    place = PLACES[area]
    repl = {}
    src = os.path.join(HARNESS, area)
    for name in sorted(os.listdir(src)):
        if name.endswith(".go"):
            repl[os.path.join(REPO, place, name)] = os.path.join(src, name)
    common = os.path.join(HARNESS, "common")
    for name in sorted(os.listdir(common)):
        if name.endswith(".go"):
            repl[os.path.join(REPO, "internal/zzverif/common", name)] = os.path.join(common, name)
    ov = os.path.join(WORK, "overlay-%s.json" % area)
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    out = os.path.join(WORK, "drv-%s%s" % (area, "-race" if race else ""))
    cmd = ["go", "test", "-c", "-vet=off"] if test else ["go", "build"]
    cmd += ["-modfile=" + _modfile(), "-overlay=" + ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + place)
    r = subprocess.run(cmd, cwd=REPO, env=env_go(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError("driver %s does not build:\n%s" % (area, r.stdout[-4000:]))
    _built[key] = out
    return out


def run_driver(binary, args, timeout=300, env=None, ok=(0,)):
    e = env_go()
    if env:
        e.update(env)
    try:
        r = subprocess.run([binary] + args, cwd=WORK, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out: %s" % " ".join(args))
    if ok is not None and r.returncode not in ok:
        raise CheckError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(args), r.stdout[-4000:]))
    return r


class TLCResult:
    def __init__(self):
        self.lines = {}      # tag -> list of payload strings
        self.states = 0
        self.generated = 0
        self.ok = False
        self.out = ""


_STR = re.compile(r'^"(.*)"$')


def tlc(module, cfg_text, env=None, tags=(), timeout=600, workers=8, extra=(), heap="6g", deque=False):
    """Run TLC on spec/<module>.tla with the given configuration text. Lines printed by the
    specification as PrintT("TAG " \\o ...) are collected per tag."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    jvm = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d]
    if deque:
        jvm.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = jvm + ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-metadir", os.path.join(d, "meta"),
                 "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    log = os.path.join(d, "out.txt")
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise CheckError("TLC timed out on %s" % module)
    res = TLCResult()
    res.rc = p.returncode
    rest = []
    with open(log, errors="replace") as lf:
        for line in lf:
            m = None
            if line.startswith('"'):
                line_s = line.rstrip("\n")
                try:
                    s = json.loads(line_s)
                except ValueError:
                    s = None
                if s is not None:
                    tag, _, payload = s.partition(" ")
                    if tag in tags:
                        res.lines.setdefault(tag, []).append(payload)
                        continue
            rest.append(line)
    res.out = "".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.out)
    if m:
        res.generated, res.states = int(m[-1][0]), int(m[-1][1])
    res.ok = p.returncode == 0 and ("No error has been found" in res.out or "-simulate" in extra)
    shutil.rmtree(d, ignore_errors=True)
    return res


def model_check(module, cfg_text, **kw):
    """TLC run in which every invariant/property must hold: the model is ours, so a failure is an
    error of the check, not a verdict about the code."""
    r = tlc(module, cfg_text, **kw)
    if not r.ok:
        raise CheckError("the model %s does not satisfy its own properties, or TLC failed:\n%s" % (module, r.out[-5000:]))
    return r


def read_ndjson(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    break   # the driver died while writing (reported by crashed())
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []     # (key, description, replay object)
        self.assumptions = []
        self.unfinished = ""     # why the run is not complete (an answer only if a violation was found)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name):
        return os.path.join(WORK, name)

    # ---- model side
    def model(self, module, cfg, tags=("STIM",), **kw):
        r = model_check(module, cfg, tags=tags, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            dict(module=module, distinct_states=r.states, states_generated=r.generated))
        return r

    def stimuli(self, res, path, tag="STIM"):
        seen = set()
        n = 0
        with open(path, "w") as f:
            for s in res.lines.get(tag, []):
                if s in seen:
                    continue
                seen.add(s)
                f.write(s + "\n")
                n += 1
        self.notes.setdefault("stimuli_from_model", 0)
        self.notes["stimuli_from_model"] += n
        if n == 0:
            raise CheckError("the model generated no stimuli")
        return n

    # ---- judge side
    def judge(self, module, trace_path, cfg=None, max_traces=None, key=None, describe=None, chunk=None, **kw):
        """Validate recorded traces against the specification with TLC. Each trace is a JSON line with
        a list 'ev' of events. A rejected trace is a violation."""
        traces = read_ndjson(trace_path)
        if not traces:
            if self.violations or self.unfinished:
                return
            raise CheckError("no traces recorded for %s" % module)
        chunk = chunk or len(traces)
        for base in range(0, len(traces), chunk):
            part = traces[base:base + chunk]
            p = trace_path + ".part"
            with open(p, "w") as f:
                for tr in part:
                    f.write(json.dumps(tr, separators=(",", ":")) + "\n")
            self._judge(module, p, part, cfg, key, describe, **kw)

    def _judge(self, module, path, traces, cfg, key, describe, **kw):
        cfg = cfg or ("INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n StInit <- MStInit\n Apply <- MApply\n")
        env = dict(kw.pop("env", {}))
        env["VERIF_TRACE"] = path
        r = tlc(module, cfg, env=env, tags=("REJECT",), **kw)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise CheckError("trace judge %s failed:\n%s" % (module, r.out[-5000:]))
        expected = sum(len(t["ev"]) + 1 for t in traces)
        rej = {}
        for s in r.lines.get("REJECT", []):
            o = json.loads(s)
            rej.setdefault(o["t"], o)
        if not rej and r.states != expected:
            raise CheckError("trace judge %s: %d states for %d expected" % (module, r.states, expected))
        if rej and r.states >= expected:
            raise CheckError("trace judge %s: rejections but all events consumed" % module)
        self.states += r.states
        self.transitions += max(0, r.generated - len(traces))
        self.traces += len(traces) - len(rej)
        self.events += expected - len(traces)
        if len(self.samples) < 4:
            for tr in traces[:: max(1, len(traces) // 3)][:3]:
                self.samples.append(_short(tr))
        for t in sorted(rej):
            tr = traces[t - 1]
            o = rej[t]
            desc = describe(tr, o) if describe else "event %d of trace is not allowed: observed %s, specification expects %s" % (
                o["i"], json.dumps(tr["ev"][o["i"] - 1])[:600], json.dumps(o.get("exp"))[:600])
            k = key(tr, o) if key else ""
            self.violations.append((k, desc, dict(module=module, trace=tr, reject=o)))

    def violate(self, key, desc, obj):
        self.violations.append((key, desc, obj))

    # ---- outcome
    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        known = load_known()
        new, old = [], {}
        for k, desc, obj in self.violations:
            kf = known.get((self.prop, k)) if k else None
            if kf:
                old.setdefault((self.prop, k), kf)
            else:
                new.append((k, desc, obj))
        if self.unfinished and not self.violations:
            raise CheckError(self.unfinished)
        if self.traces == 0 and not self.violations:
            raise CheckError("vacuous run: nothing was validated against the implementation")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   samples=self.samples[:6])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for (prop, k), what in old.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if new:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([dict(key=k, what=desc, detail=obj) for k, desc, obj in new[:50]], f, indent=1, ensure_ascii=False, default=str)
            for k, desc, obj in new[:5]:
                print("  %s: %s" % (self.prop, desc[:1500]))
            if len(new) > 5:
                print("  ... and %d more" % (len(new) - 5))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def _short(tr, n=700):
    s = json.dumps(tr, separators=(",", ":"))
    return tr if len(s) <= n else s[:n] + "..."


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <what fails>'; 'fixed:' lines are
    history and suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def b(s):
    """readable form of a byte list"""
    return bytes(s).decode("latin-1")

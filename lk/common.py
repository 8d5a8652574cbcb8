"""Shared machinery: building the drivers, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.environ.get("LK_TARGET", os.path.join(ROOT, "target"))
OUT = os.path.join(ROOT, "out")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


def env_for_cargo(flags=""):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly-2023-11-04", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             CARGO_TERM_COLOR="never")
    e.pop("RUSTC_WRAPPER", None)
    if flags:
        e["RUSTFLAGS"] = flags
    else:
        e.pop("RUSTFLAGS", None)
    return e


def build(crate, flags="", bins=None):
    """Build a driver crate against /repo's working tree; returns the directory of its binaries."""
    d = os.path.join(ROOT, "harness", crate)
    e = env_for_cargo(flags)
    e["CARGO_TARGET_DIR"] = TARGET + ("/" + crate.replace("/", "_"))
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError(f"building harness/{crate} failed:\n{r.stderr[-4000:]}")
    log(f"built {crate} in {time.time() - t:.1f}s")
    return os.path.join(e["CARGO_TARGET_DIR"], "debug")


def log(*a):
    print("#", *a, flush=True)


def workdir(name):
    d = os.path.join(OUT, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


class Tlc:
    def __init__(self):
        self.generated = self.distinct = 0
        self.bad = []
        self.violated = None
        self.out = ""


_BAD = re.compile(r'^<<\s*"BAD",')


def unquote(s):
    """Parse a printed TLA+ tuple of strings / integers / nested tuples into Python."""
    s = s.strip()
    pos = 0

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            r = []
            ws()
            if s.startswith(">>", pos):
                pos += 2
                return r
            while True:
                r.append(val())
                ws()
                if s.startswith(">>", pos):
                    pos += 2
                    return r
                assert s[pos] == ",", (s, pos)
                pos += 1
        if s[pos] == '"':
            e = pos + 1
            o = ""
            while s[e] != '"':
                if s[e] == "\\":
                    e += 1
                o += s[e]
                e += 1
            pos = e + 1
            return o
        if s[pos] == "{":
            pos += 1
            r = []
            ws()
            while s[pos] != "}":
                r.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return ("set", r)
        if s[pos] == "[":
            pos += 1
            r = {}
            ws()
            while s[pos] != "]":
                m = re.match(r"\s*(\w+)\s*\|->", s[pos:])
                pos += m.end()
                r[m.group(1)] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return r
        m = re.match(r"-?\w+", s[pos:])
        pos += m.end()
        w = m.group(0)
        return int(w) if re.fullmatch(r"-?\d+", w) else w

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace():
            pos += 1

    return val()


def tlc(spec, cfg, env=None, workers=8, timeout=800, name=None, expect=None, heap="6g", extra=()):
    """Run TLC on spec (path relative to /verif/spec).  `expect` is the number of distinct states
    that a complete run has; anything else is a tool error."""
    path = os.path.join(ROOT, "spec", spec)
    d, mod = os.path.split(path)
    name = name or f"{mod}_{os.getpid()}_{int(time.time() * 1000)}"
    meta = os.path.join(OUT, "tlc", name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(d, cfg)
    cmd = ["timeout", str(int(timeout)), "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={ROOT}/spec/lib", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp, *extra, mod]
    p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.out = p.stdout
    r.cmd = " ".join(cmd)
    buf = None
    for line in p.stdout.splitlines():
        if _BAD.match(line):
            buf = line
        elif buf is not None:
            buf += " " + line.strip()
        if buf is not None:
            if buf.count("<<") == buf.count(">>"):
                r.bad.append(unquote(buf)[1:])
                buf = None
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", p.stdout)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    v = re.search(r"Error: (Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Deadlock reached)", p.stdout)
    if v:
        r.violated = v.group(2) or v.group(3) or v.group(1)
        return r
    if p.returncode != 0 or "Model checking completed" not in p.stdout and "The number of states generated" not in p.stdout:
        tail = "\n".join([x for x in p.stdout.splitlines() if not re.match("Progress|Parsing|Semantic proc", x)][-40:])
        raise ToolError(f"TLC failed on {spec} ({cfg}) rc={p.returncode}:\n{tail}\n{p.stderr[-800:]}")
    if expect is not None and r.distinct != expect:
        raise ToolError(f"TLC on {spec}: {r.distinct} distinct states, expected {expect}")
    return r


def run_driver(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    e.update(RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
    return p.returncode, p.stdout, p.stderr


def known():
    """Entries of the known-findings file: (property, key) -> text."""
    k = {}
    f = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("fixed:") and not line.startswith("#"):
                j = json.loads(line)
                k[(j["property"], j["key"])] = j["what"]
    return k


class Check:
    """Collects what one check found and covered."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.level = "model_checking"
        self.dir = workdir(prop)
        self.quick = tier == "quick"

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, what, replay):
        """key identifies the failing case (known findings are matched on it)."""
        self.violations.append((key, what, replay))

    def model(self, r, name, must_hold=True):
        """Account for an exhaustive model run."""
        self.add("states", r.distinct)
        self.add("transitions", r.generated)
        self.cov.setdefault("models", {})[name] = dict(states=r.distinct, transitions=r.generated,
                                                       result="holds" if not r.violated else f"violates {r.violated}")
        if must_hold and r.violated:
            raise ToolError(f"the model {name} violates {r.violated}: the specification is wrong\n{r.out[-6000:]}")
        if not must_hold and not r.violated:
            raise ToolError(f"the deliberately wrong model {name} is not rejected: the specification is vacuous")

    def finish(self):
        kn = known()
        fresh, old, seen = [], {}, set()
        for key, what, replay in self.violations:
            if (self.prop, key) in kn:
                old[key] = kn[(self.prop, key)]
            elif key not in seen:
                seen.add(key)
                fresh.append((key, what, replay))
        for k, w in old.items():
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        self.cov["samples"] = self.samples[:5] or ["none"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for i, (key, what, replay) in enumerate(fresh[:20]):
            d = os.path.join(OUT, "violations")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{i}.json")
            json.dump(dict(property=self.prop, key=key, what=what, replay=replay), open(path, "w"), indent=1, default=str)
            print(f"# {what}"[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
        log(f"{self.prop} {self.tier}: {len(fresh)} violations, {time.time() - self.t0:.1f}s")
        return 1 if fresh else 0

"""Shared machinery of the checks: building the harnesses from /repo's working tree, running
TLC, and reporting.  Exit codes: 0 held, 1 violated, 2 the check itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class ToolError(Exception):
    pass


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def repo_stamp(extra=()):
    h = hashlib.sha256()
    for f in repo_files() + sorted(extra):
        try:
            data = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def tree(d):
    out = []
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != "target"]
        out += [os.path.join(root, f) for f in files]
    return out


def cargo_build(name, manifest, target, crates, args=()):
    """cargo build, rebuilding the repository's crates whenever any byte of them changed
    (cargo alone looks at modification times)."""
    os.makedirs(target, exist_ok=True)
    stamp_file = os.path.join(target, "." + name + ".stamp")
    stamp = repo_stamp(tree(os.path.join(VERIF, "harness")))
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints allow", CARGO_NET_OFFLINE="true", CARGO_PROFILE_RELEASE_LTO="off")
    old = open(stamp_file).read() if os.path.exists(stamp_file) else None
    if old != stamp:
        if old is not None:
            for c in crates:
                subprocess.run(["cargo", "clean", "--release", "--offline", "--manifest-path", manifest, "-p", c],
                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp_file):
                os.unlink(stamp_file)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", manifest] + list(args),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (name, r.stdout[-6000:]))
        open(stamp_file, "w").write(stamp)
    return os.path.join(target, "release")


def build_crypto():
    return os.path.join(cargo_build(
        "crypto", os.path.join(VERIF, "harness/crypto/Cargo.toml"), os.path.join(BUILD, "target"),
        ["path+file:///repo/rac#rac", "vru-noise", "vru-kyber", "vru-session", "vru-conformance-crypto"]), "crypto")


def build_net():
    return os.path.join(cargo_build(
        "net", os.path.join(VERIF, "harness/net/Cargo.toml"), os.path.join(BUILD, "target"),
        ["vru-noise", "vru-kyber", "vru-session", "vru-udp", "vru-tcp", "vru-conformance-net"]), "net")


def build_node():
    """the node and the command-line client"""
    return cargo_build("node", os.path.join(REPO, "vru-node/Cargo.toml"), os.path.join(BUILD, "target-node"),
                       ["vru-noise", "vru-kyber", "vru-session", "vru-tcp", "vru-node"])


class Tlc:
    def __init__(self, workdir):
        self.work = workdir
        self.states = 0
        self.transitions = 0
        self.runs = []

    @staticmethod
    def counts(text, simulate):
        num = lambda x: int(x.replace(",", ""))
        if simulate:
            m = re.findall(r"The number of states generated: ([\d,]+)", text) or re.findall(r"Progress: ([\d,]+) states checked", text)
            g = num(m[-1]) if m else 0
            return g, g
        m = re.findall(r"([\d,]+) states generated(?:, ([\d,]+) distinct)?", text)
        return (num(m[-1][0]), num(m[-1][1] or "0")) if m else (0, 0)

    def run(self, module, cfg, simulate=None, depth=None, seed=None, workers=8, timeout=800, consts=None,
            out=None, spec_dir=SPEC, expect=None, env=None, heap=None, keep_dup=False):
        """Runs TLC.  Returns the emitted JSON lines (list of str).  A violated invariant or any
        other abnormal ending of the specification itself is a ToolError, unless `expect` names
        the invariant that is supposed to be violated."""
        name = os.path.splitext(os.path.basename(cfg))[0]
        meta = os.path.join(self.work, "tlc-%s-%d" % (name, len(self.runs)))
        os.makedirs(meta, exist_ok=True)
        cfg_path = os.path.join(spec_dir, cfg)
        if consts:
            text = open(cfg_path).read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)(^|\s)%s\s*(=|<-)\s*(\{[^}]*\}|<<[^>]*>>|\S+)" % re.escape(k),
                                  lambda m: "%s%s %s %s" % (m.group(1), k, "=", v), text)
                if n != 1:
                    raise ToolError("constant %s in %s: %d matches" % (k, cfg, n))
            cfg_path = os.path.join(meta, name + ".cfg")
            open(cfg_path, "w").write(text)
        base = ["java", "-XX:+UseParallelGC", "-Xss64m"]
        if simulate:
            base.append("-XX:ParallelGCThreads=2")
        if heap:
            base.append("-Xmx" + heap)
        base += ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
        # one process per share of a simulation: the workers of one process share a random
        # generator and repeat each other's behaviours
        n = min(8, simulate) if simulate else 1
        t0 = time.time()
        jobs = []
        for k in range(n):
            mk = os.path.join(meta, str(k))
            os.makedirs(mk, exist_ok=True)
            cmd = base + ["-noGenerateSpecTE", "-metadir", mk, "-workers", str(1 if simulate else workers), "-config", cfg_path]
            if simulate:
                cmd += ["-simulate", "num=%d" % ((simulate + n - 1) // n), "-depth", str(depth or 100),
                        "-seed", str((seed or SEED) * 1000 + k)]
            cmd += [os.path.join(spec_dir, module + ".tla")]
            f = open(os.path.join(mk, "out"), "w")
            jobs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=mk,
                                          env=dict(os.environ, JAVA_TOOL_OPTIONS="", **(env or {}))), f))
        try:
            for p, f in jobs:
                p.wait(timeout=max(1, timeout - (time.time() - t0)))
                f.close()
        except subprocess.TimeoutExpired:
            for p, f in jobs:
                p.kill()
            raise ToolError("TLC %s %s exceeded %d s" % (module, cfg, timeout))
        lines, rest, gen, dis, rc = [], [], 0, 0, 0
        for k, (p, f) in enumerate(jobs):
            mine = []
            with open(os.path.join(meta, str(k), "out")) as g:
                for l in g:
                    if l.startswith('"@@'):
                        lines.append(json.loads(l)[2:])
                    else:
                        mine.append(l)
            text = "".join(mine)
            a, b = self.counts(text, simulate)
            gen, dis, rc = gen + a, dis + b, rc or p.returncode
            rest.append(text)
        text = "".join(rest)
        info = {"module": module, "config": os.path.basename(cfg), "mode": "simulate" if simulate else "exhaustive",
                "states": dis, "transitions": gen, "wall_s": round(time.time() - t0, 1), "rc": rc}
        self.runs.append(info)
        self.states += dis
        self.transitions += gen
        self.last_text = text
        if expect:
            if ("Invariant %s is violated" % expect) not in text and expect not in text:
                raise ToolError("TLC %s %s: expected %s, got:\n%s" % (module, cfg, expect, text[-4000:]))
        elif rc != 0:
            raise ToolError("TLC %s %s ended with %d:\n%s" % (module, cfg, rc, text[-6000:]))
        if simulate and not keep_dup:
            lines = list(dict.fromkeys(lines))
        if out:
            with open(out, "w") as f:
                for l in lines:
                    f.write(l + "\n")
        return lines


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        m = re.match(r"^known: property=(\S+) class=(\S+) (.*)$", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


class Ctx:
    """One run of one check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.quick = TIER != "thorough"
        self.seed = SEED
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.tlc = Tlc(self.work)
        self.validated = 0
        self.steps = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.exhaustive = None

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def violation(self, cls, what, replay=None):
        for c, text in load_known(self.prop):
            if c == cls:
                self.known.setdefault(c, (text, what))
                return
        self.violations.append((cls, what, replay))

    def harness(self, binary, args, timeout=800, env=None):
        r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=dict(os.environ, VERIF_SEED=str(SEED), **(env or {})))
        if r.returncode < 0 or r.returncode in (134, 139):
            # the code under test took the whole process down (abort, stack overflow)
            self.violation("process-died", "the process under test died with status %d during %s: %s"
                           % (r.returncode, " ".join(args[:1]), r.stderr[-500:]), json.dumps(args))
            return {"traces": 0, "steps": 0, "counters": {}, "fails": []}
        if r.returncode != 0:
            raise ToolError("harness %s ended with %d: %s" % (args, r.returncode, r.stderr[-3000:]))
        try:
            rep = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            raise ToolError("harness %s: unreadable report: %s" % (args, r.stdout[-500:]))
        self.validated += rep["traces"]
        self.steps += rep["steps"]
        for k, v in rep.get("counters", {}).items():
            self.notes[k] = self.notes.get(k, 0) + v
        for s in rep.get("samples", []):
            self.sample(s)
        for f in rep["fails"]:
            self.violation(f["class"], f["what"], f["replay"])
        return rep

    def sample(self, s):
        if len(self.samples) < 8:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 4000 else t[:4000])

    def finish(self):
        for i, (cls, what, replay) in enumerate(self.violations[:5]):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.txt" % (self.prop, re.sub(r"\W+", "-", cls), i))
            with open(p, "w") as f:
                f.write(what + "\n\n" + (replay if isinstance(replay, str) else json.dumps(replay)) + "\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  [%s] %s" % (cls, what[:1200]))
        for c, (text, what) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        cov = {"states": self.tlc.states, "transitions": self.tlc.transitions,
               "traces_validated_against_impl": self.validated, "impl_steps": self.steps,
               "samples": self.samples, "tlc_runs": self.tlc.runs}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations and self.validated == 0:
            raise ToolError("nothing was validated against the implementation")
        print("%s: %s; states %d, behaviours on the implementation %d, %.1f s"
              % (self.prop, "VIOLATED" if self.violations else "held", self.tlc.states, self.validated, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0

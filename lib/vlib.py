"""Infrastructure of the checks: scratch space, building the harness from
/repo's working tree, running TLC, reading its output, evidence, findings."""
import atexit, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")


class CheckError(Exception):
    """The check cannot give an answer."""


def log(*a):
    print("  ", *a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        atexit.register(self.close)
        self.bins = {}
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts = [], []
        self.viol = []      # (what, replay payload)
        self.known = []
        self.cov = {}
        self.thorough = tier == "thorough"

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ------------------------------------------------------------ go
    def env(self):
        if not hasattr(self, "_env"):
            out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
            env = dict(x.split("=", 1) for x in out.decode("utf8", "replace").split("\0") if "=" in x)
            gc = self.path("gc")
            src = env.get("GOCACHE", "/opt/vp/gocache")
            if os.path.isdir(src):
                subprocess.run(["cp", "-a", src, gc], check=False)
            env["GOCACHE"] = gc
            env["GOFLAGS"] = (env.get("GOFLAGS", "") + " -trimpath=false").strip()
            env["GOTMPDIR"] = self.dir
            self._env = env
        return self._env

    def build(self, name="harness", pkg="cmd/verifharness", extra=(), inject=()):
        """build the main package of /verif/<name> as if it were /repo/<pkg>"""
        key = (name, tuple(extra))
        if key in self.bins:
            return self.bins[key]
        rep = {}
        for f in glob.glob(os.path.join(VERIF, name, "*.go")):
            rep[os.path.join(REPO, pkg, os.path.basename(f))] = f
        for a, b in inject:
            rep[os.path.join(REPO, a)] = os.path.join(VERIF, b)
        ov = self.path("ov-%s.json" % name)
        json.dump({"Replace": rep}, open(ov, "w"))
        out = self.path("bin-%s%s" % (name, "-race" if "-race" in extra else ""))
        p = subprocess.run(["go", "build", "-overlay", ov, "-o", out, *extra, "./" + pkg], cwd=REPO,
                           env=self.env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stderr[-4000:])
        self.bins[key] = out
        return out

    def build_cmd(self, cmd):
        """build one of the repository's own programs"""
        out = self.path("bin-" + os.path.basename(cmd))
        if not os.path.exists(out):
            p = subprocess.run(["go", "build", "-o", out, "./" + cmd], cwd=REPO, env=self.env(),
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise CheckError("%s does not build:\n%s" % (cmd, p.stderr[-4000:]))
        return out

    def run(self, argv, timeout=300, env=None, stdin=None, cwd=None, mem=None):
        e = dict(self.env())
        e.update(env or {})
        pre = None
        if mem:
            import resource
            def pre():
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        try:
            return subprocess.run(argv, capture_output=True, text=True, timeout=timeout, env=e, input=stdin,
                                  cwd=cwd or self.dir, preexec_fn=pre, errors="replace")
        except subprocess.TimeoutExpired as x:
            class R:
                pass
            r = R()
            r.returncode = -999
            r.stdout = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            r.stderr = (x.stderr or b"").decode("utf8", "replace") if isinstance(x.stderr, bytes) else (x.stderr or "")
            return r

    def harness(self, argv, timeout=300, env=None, mem=None):
        """run a harness command; a crash whose stack goes through the code of
        the repository is reported as ("crash", text), anything else is an error"""
        p = self.run([self.build()] + [str(a) for a in argv], timeout, env, mem=mem)
        if p.returncode == 0:
            return None
        return self.classify(p, argv)

    def classify(self, p, argv):
        err = p.stderr
        m = re.search(r"(?m)^(panic:|fatal error:|unexpected fault).*$", err)
        if m:
            head = err[m.start():m.start() + 6000]
            # the goroutine that failed
            first = head.split("\n\ngoroutine")[0] + "\n" + (head.split("\n\ngoroutine")[1] if "\n\ngoroutine" in head else "")
            if "script error" in m.group(0):
                raise CheckError(head[:2000])
            frames = re.findall(r"\n\t(%s/\S+\.go):\d+" % re.escape(REPO), first)
            if any("/cmd/verifharness/" not in f for f in frames) or "fatal error: all goroutines" in head:
                return ("crash", head[:3000])
            raise CheckError("harness crashed: " + head[:3000])
        if p.returncode == -999:
            return ("hang", "no end of `%s`" % " ".join(map(str, argv))[:300])
        raise CheckError("harness %s: exit %s\n%s" % (argv[0], p.returncode, err[-3000:]))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args=(), env=None, timeout=600, count=True, extra_files=()):
        """cfg: text of a configuration or the name of a file in specs/"""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in glob.glob(os.path.join(SPECS, "*.tla")) + list(extra_files):
            shutil.copy(f, d)
        if "\n" in cfg:
            open(os.path.join(d, "M.cfg"), "w").write(cfg)
        else:
            shutil.copy(os.path.join(SPECS, cfg), os.path.join(d, "M.cfg"))
        e = dict(os.environ)
        e.update(env or {})
        argv = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", TLA, "tlc2.TLC",
                "-workers", "8", "-metadir", os.path.join(d, "md"), "-config", "M.cfg", *args, module + ".tla"]
        out = open(os.path.join(d, "out"), "w+")
        try:
            rc = subprocess.run(argv, stdout=out, stderr=subprocess.STDOUT, cwd=d, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -999
        out.seek(0)
        txt = out.read()
        out.close()
        shutil.rmtree(d, ignore_errors=True)
        r = TlcResult(rc, txt)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def model(self, module, cfg, what, args=(), timeout=600, env=None):
        """exhaustive exploration of a model: anything but success means that the
        model is wrong, not the code"""
        t = time.time()
        r = self.tlc(module, cfg, args, env, timeout)
        if r.rc == -999 and "-simulate" not in args:
            raise CheckError("model %s: not finished in %d s" % (module, timeout))
        if r.rc != 0:
            raise CheckError("model %s %s fails:\n%s" % (module, what, r.text[-3000:]))
        self.parts.append("model %s (%s): %d distinct states, %d transitions, %.0f s" %
                          (module, what, r.distinct, r.generated, time.time() - t))
        log(self.parts[-1])
        return r

    def refuted(self, module, cfg, what, args=(), timeout=600):
        """the model without a guard must fail: the properties are not vacuous"""
        r = self.tlc(module, cfg, args, None, timeout, count=False)
        if r.rc == 0 or "is violated" not in r.text and "were violated" not in r.text:
            raise CheckError("model %s (%s) is not refuted:\n%s" % (module, what, r.text[-2000:]))
        self.parts.append("model %s (%s) is refuted, as it should be" % (module, what))
        log(self.parts[-1])

    # ------------------------------------------------------------ results
    def violation(self, what, payload):
        self.viol.append((what, payload))

    def sample(self, x):
        if len(self.samples) < 12:
            t = json.dumps(x)
            self.samples.append(x if len(t) < 3000 else t[:3000])

    def finish(self, level, assumptions=()):
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        findings = load_findings()
        new, seen = [], set()
        for what, payload in self.viol:
            k = [f for f in findings if f["property"] == self.prop and re.search(f["match"], what)]
            if k:
                for f in k:
                    if f["match"] not in seen:
                        seen.add(f["match"])
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]))
            else:
                new.append((what, payload))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"], parts=self.parts)
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        while len(json.dumps(ev)) > 60000 and cov["samples"]:
            cov["samples"] = cov["samples"][:-1] or ["(too long)"]
            if cov["samples"] == ["(too long)"]:
                break
        tmp = os.path.join(ed, ".%s.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(ed, "%s.json" % self.prop))
        for i, (what, payload) in enumerate(new[:5]):
            rp = os.path.join(rdir, "%s-%d.json" % (self.prop, i))
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, replay=payload), open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            print("   " + what[:1500].replace("\n", "\n   "))
        print("%s %s: %d states, %d transitions, %d traces validated, %.0f s, %s" %
              (self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0,
               "%d violations" % len(new) if new else "held"))
        return 1 if new else 0


class TlcResult:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", text)
            self.generated = self.distinct = int(m[-1].replace(",", "")) if m else 0

    def records(self, kind):
        for l in self.text.splitlines():
            if l.startswith('"{'):
                d = json.loads(json.loads(l))
                if d.get("k") == kind:
                    yield d


def load_findings():
    """known_findings.jsonl: {"property", "match": regular expression on the
    description of the violation, "text"}; lines starting with "fixed:" are history"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("{"):
                out.append(json.loads(l))
    return out

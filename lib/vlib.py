"""Shared machinery of all checks: builds of /repo, TLC runs, verdicts, evidence.

Exit status of a check: 0 - the property held on everything explored,
1 - a violation shown by the real code (a VIOLATION line is printed),
2 - the machinery failed (no verdict).
"""
import atexit, concurrent.futures, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# VERIF_REPO is for development only (planted bugs in scratch copies).
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class MachineryError(Exception):
    pass


PKGS = {"burl_backend": "./cmd/burl_backend", "burl_tool": "./cmd/burl_tool",
        "burl_client": "./tools/burl_client",
        "example_backend": "./examples/webextensions_backend",
        "example_client": "./examples/webextensions_client"}


HANGS = []      # programs that did not end in time


def run(argv, timeout=60, **kw):
    """subprocess.run for programs under test: a program that does not end is killed and has
    status -999. Programs that never end are not worth waiting for many times."""
    if len(HANGS) > 3:
        timeout = min(timeout, 2)
    inp = kw.pop("input", None)
    if inp is not None:
        kw["stdin"] = subprocess.PIPE
    p = subprocess.Popen(argv, **kw)
    try:
        out, err = p.communicate(inp, timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        HANGS.append(argv)
        p.kill()
        try:
            out, err = p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
        rc = -999
        if err is not None:
            err += b"\nIt does not end."
    return subprocess.CompletedProcess(argv, rc, out, err)


def objects(data):
    """JSON objects of complete lines."""
    lines = data.split(b"\n")
    return [json.loads(l) for l in lines[:-1] if l.strip()]


def goenv():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["LANG"] = "C.UTF-8"
    gobin = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(gobin):
        env["PATH"] = gobin + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
               GOFLAGS="-mod=mod -buildvcs=false")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return env


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.generated = self.distinct = 0
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        self.printed = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.printed.append(json.loads(json.loads(line)[2:]))
        self.ok = rc == 0 and "No error has been found" in out


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.thorough = self.tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(self._cleanup)
        self.specdir = os.path.join(self.scratch, "spec")
        os.mkdir(self.specdir)
        for f in os.listdir(SPECS):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPECS, f), self.specdir)
        self.bins = {}
        self._yields = None
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.details = {}
        self.assumptions = []
        self.viol = []
        self.known = load_known(prop)
        self._tlcn = 0
        self._lock = threading.Lock()
        self.pool = concurrent.futures.ThreadPoolExecutor(3)
        self.pending = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _cleanup(self):
        for root, dirs, files in os.walk(self.scratch):
            for d in dirs:
                p = os.path.join(root, d)
                if not os.path.islink(p):
                    try:
                        os.chmod(p, 0o700)
                    except OSError:
                        pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p

    # ---- builds -------------------------------------------------------
    def yields(self):
        """Arguments of go build for the tree with points of scheduling before all statements."""
        if self._yields is None:
            out = self.dir("yields")
            p = subprocess.run([self.harness("yielder"), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise MachineryError("yielder: " + p.stdout.decode(errors="replace"))
            self._yields = ["-overlay", os.path.join(out, "overlay.json")]
        return self._yields

    def build_yield(self, name):
        """As build; preemption is possible before any statement."""
        key = "y:" + name
        if key not in self.bins:
            out = os.path.join(self.dir("bin"), "y_" + name)
            plain = self.build(name)
            try:
                self._go(["build"] + self.yields() + ["-o", out, PKGS[name]], REPO)
                self.bins[key] = out
            except MachineryError:
                self.assumptions.append("%s is run without additional points of scheduling" % name)
                self.bins[key] = plain
        return self.bins[key]

    def backend(self):
        """burl_backend, every second time the one with additional points of scheduling if it is built."""
        plain = self.build("burl_backend")
        return self.bins.get("y:burl_backend", plain) if self._uniq() % 2 else plain

    def build(self, name):
        """Binary of /repo's working tree: burl_backend, burl_tool, burl_client."""
        if name in self.bins:
            return self.bins[name]
        out = os.path.join(self.dir("bin"), name)
        self._go(["build", "-o", out, PKGS[name]], REPO)
        self.bins[name] = out
        return out

    def build_race(self, name, pkg):
        out = os.path.join(self.dir("bin"), name + ".race")
        self._go(["build", "-race", "-o", out, pkg], REPO)
        return out

    def harness(self, name, yields=False):
        """Helper program from /verif/harness linked with packages of /repo."""
        key = ("hy:" if yields else "h:") + name
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(self.scratch, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            with open(os.path.join(src, "go.mod")) as f:
                text = f.read()
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write(text.replace("=> /repo", "=> " + REPO))
        out = os.path.join(self.dir("bin"), ("hy_" if yields else "h_") + name)
        if yields:
            try:
                self._go(["build"] + self.yields() + ["-o", out, "./" + name], src)
            except MachineryError:
                self.assumptions.append("%s is run without additional points of scheduling" % name)
                out = self.harness(name)
        else:
            self._go(["build", "-o", out, "./" + name], src)
        self.bins[key] = out
        return out

    def native(self, name):
        """Helper program from /verif/native."""
        key = "n:" + name
        if key not in self.bins:
            out = os.path.join(self.dir("bin"), "n_" + name)
            p = subprocess.run(["gcc", "-O1", "-o", out, os.path.join(VERIF, "native", name + ".c")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise MachineryError("gcc failed: %s" % p.stdout.decode(errors="replace"))
            self.bins[key] = out
        return self.bins[key]

    def build_overlay(self, name, pkg, overlay):
        """Binary of /repo with files added from harness/overlay; None if they do not compile."""
        m = {"Replace": {os.path.join(REPO, dst): os.path.join(VERIF, "harness", "overlay", src) for dst, src in overlay.items()}}
        path = os.path.join(self.scratch, name + ".overlay.json")
        with open(path, "w") as f:
            json.dump(m, f)
        out = os.path.join(self.dir("bin"), name)
        try:
            self._go(["build", "-overlay", path, "-o", out, pkg], REPO)
        except MachineryError as e:
            self._go(["build", "-o", out + ".plain", pkg], REPO)
            self.assumptions.append("overlay %s does not compile with the current tree, the stage is skipped" % name)
            return None
        return out

    def _uniq(self):
        with self._lock:
            self._u = getattr(self, '_u', 0) + 1
            return self._u

    def _go(self, args, cwd, timeout=600):
        p = subprocess.run(["go"] + args, cwd=cwd, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode != 0:
            raise MachineryError("go %s failed:\n%s" % (" ".join(args), p.stdout.decode(errors="replace")))
        return p.stdout.decode(errors="replace")

    # ---- TLC ----------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, simulate=None, depth=100,
            timeout=850, heap="4g", expect_ok=True, count=True, seedoff=0):
        """Runs TLC. cfg is a file name in specs/ or configuration text."""
        with self._lock:
            self._tlcn += 1
            num = self._tlcn
        if "\n" in cfg:
            cfgname = "run%d.cfg" % num
            with open(os.path.join(self.specdir, cfgname), "w") as f:
                f.write(cfg)
        else:
            cfgname = cfg
        meta = os.path.join(self.scratch, "meta%d" % num)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss16m", "-Xmx" + heap, "-cp", CP,
               "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-config", cfgname]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth),
                    "-seed", str(self.seed * 7919 + (seedoff or num)), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["LC_ALL"] = "C.UTF-8"
        if env:
            e.update(env)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=self.specdir, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout: %s %s" % (module, cfgname))
        out = p.stdout.decode("utf-8", errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult(out, p.returncode, time.time() - t)
        if simulate is not None and p.returncode == 0:
            r.ok = True
        if count:
            with self._lock:
                self.states += r.distinct
                self.transitions += r.generated
        if expect_ok and not r.ok:
            raise MachineryError("TLC failed: %s %s\n%s" % (module, cfgname, out[-6000:]))
        return r

    def design(self, module, cfg, **kw):
        """Exhaustive check of the design, runs in background; a failure is an error of
        the specification."""
        kw.setdefault("workers", 4)
        self.pending.append(self.pool.submit(self._design, module, cfg, kw))

    def _design(self, module, cfg, kw):
        r = self.tlc(module, cfg, **kw)
        self.details.setdefault("design", []).append(
            dict(module=module, cfg=cfg if "\n" not in cfg else "inline",
                 states=r.distinct, transitions=r.generated, wall_s=round(r.wall, 1)))
        return r

    def judge(self, module, cases, cfg=None, timeout=850, heap="5g", constants="", shards=4):
        """Batch validation: every recorded case is judged by operator Ok of the module.

        Returns list of (case, why) rejected by the specification."""
        if not cases:
            return []
        for i, c in enumerate(cases):
            c["id"] = i + 1
        nsh = max(1, min(shards, len(cases) // 150))
        step = (len(cases) + nsh - 1) // nsh
        offs = list(range(0, len(cases), step))
        bad = {}
        with concurrent.futures.ThreadPoolExecutor(len(offs)) as ex:
            for off, res in zip(offs, ex.map(
                    lambda o: self._judge(module, cases[o:o + step], cfg, timeout, heap, constants), offs)):
                for k, w in res.items():
                    bad[off + k] = w
        self.traces += len(cases)
        return [(cases[i - 1], w) for i, w in sorted(bad.items())]

    def _judge(self, module, cases, cfg, timeout, heap, constants):
        path = os.path.join(self.scratch, "cases%d.ndjson" % self._uniq())
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c, ensure_ascii=True, separators=(",", ":")) + "\n")
        r = self.tlc(module, cfg or "INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\n" + constants,
                     env={"CASES": path}, timeout=timeout, heap=heap)
        if r.distinct != len(cases) + 1:
            raise MachineryError("%s: %d of %d cases judged\n%s" % (
                module, r.distinct - 1, len(cases), r.out[-3000:]))
        bad = {}
        for p in r.printed:
            if "bad" in p:
                bad[p["bad"]] = p.get("why")
        return bad

    def compute(self, module, cases, constants="", shards=4, timeout=850, heap="5g"):
        """What the specification says about each case: list of records printed by the module."""
        if not cases:
            return []
        nsh = max(1, min(shards, len(cases) // 20))
        step = (len(cases) + nsh - 1) // nsh

        def part(off):
            path = os.path.join(self.scratch, "compute%d.ndjson" % self._uniq())
            with open(path, "w") as f:
                for c in cases[off:off + step]:
                    f.write(json.dumps(c, ensure_ascii=True, separators=(",", ":")) + "\n")
            r = self.tlc(module, "INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\n" + constants,
                         env={"CASES": path}, timeout=timeout, heap=heap)
            got = {p["id"]: p for p in r.printed if "id" in p}
            return [got[k + 1] for k in range(len(cases[off:off + step]))]
        with concurrent.futures.ThreadPoolExecutor(nsh) as ex:
            return [x for res in ex.map(part, range(0, len(cases), step)) for x in res]

    def accept(self, module, traces, timeout=850, heap="6g", constants="", init="TInit", nxt="TNext", inv="", extra=""):
        """Trace validation. Each trace is {"cfg":..., "ev":[...]}; the module prints
        {"acc": id} for each trace it can follow to the end. Returns rejected traces."""
        if not traces:
            return []
        for i, c in enumerate(traces):
            c["id"] = i + 1
        path = os.path.join(self.scratch, "traces%d.ndjson" % self._uniq())
        with open(path, "w") as f:
            for c in traces:
                f.write(json.dumps(c, ensure_ascii=True, separators=(",", ":")) + "\n")
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\nCONSTRAINT Progress\n%s\n%s\n%s" % (
            init, nxt, ("INVARIANT " + inv) if inv else "", constants, extra)
        r = self.tlc(module, cfg, env={"TRACES": path}, timeout=timeout, heap=heap, expect_ok=False)
        if not r.ok and "is violated" not in r.out:
            raise MachineryError("TLC failed: %s\n%s" % (module, r.out[-6000:]))
        if not r.ok:
            raise MachineryError("invariant violated by an accepted prefix: %s\n%s" % (module, r.out[-6000:]))
        self.traces += len(traces)
        acc = set()
        far = {}
        for p in r.printed:
            if "acc" in p:
                acc.add(p["acc"])
            if "at" in p:
                far[p["at"][0]] = max(far.get(p["at"][0], 0), p["at"][1])
        res = []
        for t in traces:
            if t["id"] not in acc:
                if t["id"] not in far:
                    # second run to find the first event that is not explained
                    one = dict(t, id=1)
                    p1 = os.path.join(self.scratch, "trace1.ndjson")
                    with open(p1, "w") as f:
                        f.write(json.dumps(one, separators=(",", ":")) + "\n")
                    r1 = self.tlc(module, cfg, env={"TRACES": p1, "TRACE_VERBOSE": "1"},
                                  expect_ok=False, count=False, timeout=timeout)
                    at = [q["at"][1] for q in r1.printed if "at" in q]
                    far[t["id"]] = max(at) if at else 1
                k = far[t["id"]]
                res.append((t, dict(event_no=k, event=t["ev"][k - 1] if k <= len(t["ev"]) else None)))
                if len(res) >= 10:
                    break
        return res

    # ---- verdicts -----------------------------------------------------
    def violation(self, what, data, key=None):
        """key identifies the failing input or site for the known-findings file."""
        self.viol.append(dict(what=what, data=data, key=key))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        for f in self.pending:
            f.result()
        self.pending = []
        known = [v for v in self.viol if v["key"] and v["key"] in self.known]
        new = [v for v in self.viol if v not in known]
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.details)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        out = VERIF if REPO == "/repo" else os.environ.get("VERIF_OUT", "/tmp")
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        path = os.path.join(out, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for v in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v["what"]))
        if new:
            rd = os.path.join(out, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(new[:5]):
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, i + 1))
                with open(rp, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                                   what=v["what"], data=v["data"]), f, indent=1, default=repr)
                    f.write("\n")
                print("%s: %s" % (self.prop, v["what"]))
                print("  " + json.dumps(v["data"], default=repr)[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            return 1
        print("%s: held (%d states, %d transitions, %d traces/cases validated, %.1f s)" % (
            self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return 0


def load_known(prop):
    """Lines "known: property=<id> key=<key> <text>"; "fixed:" lines suppress nothing."""
    keys = set()
    try:
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                keys.add(m.group(2))
    except OSError:
        pass
    return keys


def run_check(prop, fn, level="model_checking"):
    ck = Check(prop, level)
    try:
        fn(ck)
        rc = ck.finish()
    except MachineryError as e:
        ck.pending = []
        if ck.viol:
            rc = ck.finish()
        else:
            print("%s: machinery error: %s" % (prop, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        ck.pending = []
        rc = ck.finish() if ck.viol else 2
    sys.stdout.flush()
    ck._cleanup()
    os._exit(rc)

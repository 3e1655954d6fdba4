"""C29: diagnostic messages go where they are sent, the log is only appended to."""
import concurrent.futures, random, re, hashlib, shutil, signal
from session import *

TOKEN = re.compile(rb"TOK([0-9]+)\.([0-9]+)")
BEFORE = [None, b"", b"old line\n", b"no line end", b"\x00\xff\xfe binary\r\n\n", b"x" * 4095, b"y" * 4096 + b"\n", b"z" * 70000 + b"\nTAIL"] * 3 + [b"old line\n" * 300000]


def token(m, line):
    return "TOK%d.%d" % (m, line)


def lines_of(data):
    """Numbers of messages and their lines."""
    return [[int(a), int(b)] for a, b in TOKEN.findall(data)]


class World:
    def __init__(self, ck, name, r, sets):
        self.ck, self.r = ck, r
        self.d = ck.dir(name)
        self.log = os.path.join(self.d, r.choice(["log", "log file.txt", "\u043b\u043e\u0433", "-log"]))
        self.before = r.choice(BEFORE)
        target = self.log
        if r.random() < 0.2:
            target = os.path.join(self.d, "target")
            os.symlink("target", self.log)
        if self.before is not None:
            with open(target, "wb") as f:
                f.write(self.before)
        self.msgs = []
        self.clock = 0
        self.lock = threading.Lock()
        self.sets = sets
        self.p = [self.start(k, s) for k, s in enumerate(sets)]

    def tick(self):
        with self.lock:
            self.clock += 1
            return self.clock

    def start(self, k, s):
        r = self.r
        msg = os.path.join(self.d, "msg%d" % k)
        open(msg, "w").close()
        argv = [self.ck.backend(), "-emacsclient", self.ck.dir("bin") + "/noemacs"]
        path = self.log
        if r.random() < 0.4:
            path = os.path.basename(self.log) if not os.path.basename(self.log).startswith("-") else "./" + os.path.basename(self.log)
        argv += {"file": r.choice([["-log", path], ["--log=" + path], ["-log", "", "-log", path], ["-log", "-", "--log", path]]),
                 "err": r.choice([[], [], ["-log", "-"], ["-log", path, "-log=-"]]),
                 "off": r.choice([["-log", ""], ["-log="], ["-log", path, "-log", ""]])}[s]
        late = r.random() < 0.5
        missing = None
        e = open(os.path.join(self.d, "err%d" % k), "wb")
        m = None
        if r.random() < 0.4:
            m = self.new(k + 1, 1)
            argv += ["-org", os.path.join(self.d, token(m, 1) + ".org")]
        b = Backend(argv, env=dict(MSGFILE=msg), cwd=self.d, stderr=e)
        e.close()
        b.msgfile, b.k, b.n, b.loadmsg = msg, k, 0, m
        return b

    def new(self, p, n):
        with self.lock:
            self.msgs.append(dict(p=p, n=n, a=0, b=0))
            return len(self.msgs)

    def ask(self, b, method, params, timeout=20):
        n = len(b.frames)
        b.n += 1
        b.write(frame({"id": b.n, "method": method, "params": params}))
        b.wait(lambda: len(b.frames) > n or b.eof, timeout)
        return len(b.frames) > n

    def say(self, b, kind=None, r=None):
        """Makes the backend report something."""
        r = r or self.r
        kind = kind or r.choice(["set", "emacs", "emacs", "load", "hello"])
        if kind == "load":
            if b.loadmsg is None or self.msgs[b.loadmsg - 1]["a"]:
                kind = "set"
            else:
                m = b.loadmsg
                self.msgs[m - 1]["a"] = self.tick()
                if self.ask(b, "burl.urlMentions", [{"variants": ["https://a.example/"]}]):
                    self.msgs[m - 1]["b"] = self.tick()
                return
        if kind == "hello":
            self.ask(b, "hello", [hello_params("0.2")])
            return
        if kind == "set":
            m = self.new(b.k + 1, 1)
            q = ["a"] * r.choice([8, 16, 300, 4000]) + [token(m, 1)] + ["https"] * 16
            self.msgs[m - 1]["a"] = self.tick()
            if self.ask(b, "burl.linkSet", [{"prefix": q}]):
                self.msgs[m - 1]["b"] = self.tick()
            return
        n = r.choice([1, 1, 2, 5, 40])
        m = self.new(b.k + 1, n)
        with open(b.msgfile, "w") as f:
            for l in range(1, n + 1):
                f.write(token(m, l) + r.choice(["", " text", " " + "t" * 900]) + "\n")
        self.msgs[m - 1]["a"] = self.tick()
        if self.ask(b, "capture", [{"format": "org-protocol", "version": "0.2", "data": {"url": "org-protocol:/capture?url=x"}}]):
            self.msgs[m - 1]["b"] = self.tick()

    def alien(self):
        m = self.new(0, 1)
        self.msgs[m - 1]["a"] = self.tick()
        with open(self.log, "ab") as f:
            f.write(b"alien " + token(m, 1).encode() + b"\n")
        self.msgs[m - 1]["b"] = self.tick()

    def end(self, b):
        b.close_in()
        b.wait_exit(15)
        b.kill()

    def case(self):
        for b in self.p:
            self.end(b)
        try:
            data = open(self.log, "rb").read()
        except OSError:
            data = b"" if self.before is None else None
        old = self.before or b""
        head = data is not None and data[:len(old)] == old
        err = [open(os.path.join(self.d, "err%d" % k), "rb").read() for k in range(len(self.sets))]
        # the load message exists only if mentions were asked for
        c = dict(k="serve", sets=self.sets, msgs=[dict(m, a=m["a"] or 999999) for m in self.msgs], head=head, tail=lines_of((data or b"")[len(old):]),
                 err=[lines_of(e) for e in err], clean=[e == b"" for e in err], answers=[len(b.frames) == b.n or getattr(b, "killed", False) for b in self.p])
        c["_"] = dict(sets=self.sets, former=len(old), argv=[b.p.args[1:] for b in self.p], log_tail=(data or b"")[len(old):][-600:].decode(errors="replace"), stderr=[e[-300:].decode(errors="replace") for e in err])
        return c


def history(ck, k):
    """Steps one after another."""
    r = random.Random("c29/%d/%d" % (ck.seed, k))
    w = World(ck, "h%d" % k, r, [r.choice(["file", "file", "err", "off"]) for _ in range(r.choice([1, 2, 2, 3]))])
    for _ in range(r.choice([3, 6, 10])):
        x = r.random()
        b = r.choice(w.p)
        if x < 0.15:
            w.alien()
        elif x < 0.25:
            # what has been reported survives any end of the process
            if not getattr(b, "killed", False):
                b.killed = True
                b.p.send_signal(r.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
                b.wait_exit(10)
        elif not getattr(b, "killed", False):
            w.say(b)
    return w.case()


def flood(ck, k):
    """Backends write to the same file at once."""
    r = random.Random("c29f/%d/%d" % (ck.seed, k))
    w = World(ck, "f%d" % k, r, ["file"] * r.choice([2, 3, 4]) + (["err"] if r.random() < 0.3 else []))

    def work(b):
        rr = random.Random("%d/%d/%d" % (ck.seed, k, b.k))
        for _ in range(12):
            w.say(b, rr.choice(["set", "set", "emacs"]), rr)
    ts = [threading.Thread(target=work, args=(b,)) for b in w.p]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return w.case()


def burst(ck, k):
    """One backend, many requests that are reported, all at once."""
    r = random.Random("c29b/%d/%d" % (ck.seed, k))
    w = World(ck, "u%d" % k, r, [r.choice(["file", "file", "err"])])
    b = w.p[0]
    ms = []
    for _ in range(40):
        m = w.new(1, 1)
        w.msgs[m - 1]["a"] = w.tick()
        b.n += 1
        b.write(frame({"id": b.n, "method": "burl.linkSet", "params": [{"prefix": ["a"] * r.choice([16, 500]) + [token(m, 1)]}]}))
        ms.append(m)
    b.wait(lambda: len(b.frames) >= len(ms) or b.eof, 20)
    if len(b.frames) >= len(ms):
        for m in ms:
            w.msgs[m - 1]["b"] = w.tick()
    return w.case()


HELLO = frame({"id": "VERIFID", "method": "hello", "params": [hello_params("0.2")]}) + frame({"id": "VERIFID", "method": "nosuch", "params": []})


def fingerprint(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(root, n)
            if os.path.islink(p):
                out[p] = os.readlink(p)
            elif os.path.isfile(p):
                out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def silent(ck, name, args, fails, user=None, watch=None):
    """A run that must not serve: requests wait in its input, which stays open."""
    d = ck.dir("n/" + name)
    os.chmod(d, 0o777)
    before = fingerprint(watch) if watch else None
    kw = dict(user=user, group=user, extra_groups=[]) if user else {}
    p = subprocess.Popen([ck.backend()] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env={"PATH": "/usr/bin:/bin", "HOME": d}, **kw)
    try:
        p.stdin.write(HELLO)
        p.stdin.flush()
    except OSError:
        pass
    hang = False
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        hang = True
        p.kill()
    out, err = p.stdout.read(), p.stderr.read()
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            f.close()
        except OSError:
            pass
    p.wait()
    head = True
    if before is not None:
        head = fingerprint(watch) == before
    return dict(k="none", served=b"VERIFID" in out, code=p.returncode & 255, fails=fails, hang=hang, head=head,
                _=dict(args=args, stdout=out[-300:].decode(errors="replace"), stderr=err[-200:].decode(errors="replace"), code=p.returncode))


def silents(ck):
    d = ck.dir("logs")
    os.chmod(ck.scratch, 0o755)
    os.chmod(d, 0o755)
    sub = os.path.join(d, "sub")
    os.makedirs(sub, exist_ok=True)
    plain = os.path.join(d, "plain")
    with open(plain, "w") as f:
        f.write("contents\n")
    os.chmod(plain, 0o444)
    loop = os.path.join(d, "loop")
    os.symlink("loop", loop)
    org = os.path.join(d, "n.org")
    with open(org, "w") as f:
        f.write("* h\n[[https://a.example/]]\n")
    bad = [sub, os.path.join(d, "no/such/log"), loop, os.path.join(plain, "x"), os.path.join(d, "n" * 300), sub + "/"]
    out = []
    jobs = []
    for n, p in enumerate(bad):
        jobs.append(("b%d" % n, ["-log", p], True, None, d))
        jobs.append(("c%d" % n, ["-log", p, org], True, None, d))
        jobs.append(("d%d" % n, ["--log=" + p, "-scheme", "x", "-disable-link-set"], True, None, d))
    jobs.append(("u1", ["-log", plain], True, 65534, d))
    jobs.append(("u2", ["-log", os.path.join(d, "new")], True, 65534, d))
    ok = os.path.join(ck.dir("logok"), "log")
    gen = [["-help"], ["--help"], ["-version"], ["--version"], ["-h"], ["-help", "-version"], ["-version", org], ["-help", "-log", ""], ["-version", "-log", ok], ["-log", ok, "-version"],
           ["-version", "-log", sub], ["-help=true"], ["-version=true", "-disable-link-set"]]
    for n, a in enumerate(gen):
        jobs.append(("g%d" % n, a, False, None, None))
    for n, a in enumerate([["-wrapper", "w"], ["-wrapper", "-"], ["-wrapper", "-", "-log", ok], ["-wrapper", "w", "-log", ok, org], ["-manifest-firefox", "f.json"], ["-manifest-chrome", "c.json"],
                           ["-wrapper", "w", "-manifest-firefox", "f.json", "-manifest-chrome", "c.json", org], ["-manifest-firefox", "-"], ["-manifest-chrome", "-"], ["-manifest-firefox", "-", "-wrapper", "w"]]):
        jobs.append(("i%d" % n, a, False, None, None))
        jobs.append(("v%d" % n, a + ["-version"], False, None, None))
        jobs.append(("w%d" % n, ["-help"] + a, False, None, None))
    for n, a in enumerate([["-wrapper", "-", "-manifest-firefox", "-"], ["-manifest-firefox", "f.json", org], ["-wrapper", sub], ["-wrapper", "/nonexistent/w"], ["-nosuch"], ["-log"], ["-wrapper", "w", "-org", d + "/missing.org"],
                           ["-wrapper", "-", "-manifest-chrome", "c.json"], ["-manifest-firefox", "no/dir/f.json"]]):
        jobs.append(("e%d" % n, a, True, None, None))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: silent(ck, *j), jobs))


def check(ck):
    ck.design("Log", "Log.cfg")
    if ck.thorough:
        ck.design("Log", "LogBig.cfg")
    ck.build_yield("burl_backend")
    with open(ck.dir("bin") + "/noemacs", "w") as f:
        f.write("#!/bin/sh\ncat \"$MSGFILE\"\nexit 9\n")
    os.chmod(ck.dir("bin") + "/noemacs", 0o755)
    cases = silents(ck)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(history, ck, k) for k in range(ck.n(400, 4000))]
        fs += [ex.submit(flood, ck, k) for k in range(ck.n(40, 400))]
        fs += [ex.submit(burst, ck, k) for k in range(ck.n(40, 500))]
        cases += [f.result() for f in fs]
    notes = [c.pop("_") for c in cases]
    ck.details.update(runs=len(cases), messages=sum(len(c.get("msgs", [])) for c in cases), runs_s=round(time.time() - ck.t0, 1))
    ck.sample(notes[-1])
    for c, why in ck.judge("LogJudge", cases, shards=6)[:5]:
        ck.violation("logging: %s" % why["what"], dict(notes[c["id"] - 1], msgs=c.get("msgs", [])[:20], tail=c.get("tail", [])[:40]))

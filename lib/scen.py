"""Concretization of abstract session scenarios, their execution on the real backend and
projection of what was observed to events of specs/SessionTrace.tla."""
import concurrent.futures, hashlib, json, os, random, struct, threading, time
from session import Backend, Emacs, frame, hello_params

ALIASES = {
    "hello": ["hello", "linkremark.hello", "burl.hello"],
    "capture": ["capture", "linkremark.capture", "burl.capture"],
    "visit": ["linkremark.visit", "burl.visit"],
    "urlMentions": ["linkremark.urlMentions", "burl.urlMentions"],
    "linkSet": ["linkremark.linkSet", "burl.linkSet"],
}


def digest(s):
    if len(s) <= 40:
        return s
    return "#%d:%s" % (len(s), hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:16])


def links_of(node, acc=None):
    """URLs of all links in an answer to a mention query."""
    if acc is None:
        acc = []
    if isinstance(node, dict):
        if node.get("_type") == "Link":
            acc.append(node.get("url"))
        for key in ("children", "links"):
            for c in node.get(key) or []:
                links_of(c, acc)
    return acc


def classify(reply):
    """Short name of what a response says; compared with what the request deserves."""
    err, res = reply.get("error"), reply.get("result")
    if err is not None:
        return "error" if res is None else "both"
    if res is True:
        return "true"
    if isinstance(res, dict):
        if "status" in res:
            if res == {"preview": False, "status": "success"}:
                return "success"
            if res == {"preview": True, "status": "preview"}:
                return "preview"
        if "version" in res and "format" in res:
            return "hello:" + digest(str(res["version"]))
        if "_type" in res:
            return "urls:" + digest(" ".join(sorted(map(str, links_of(res)))))
        if "urls" in res:
            return "set:" + digest(" ".join(sorted(map(str, res["urls"] or []))))
    return "other:" + digest(json.dumps(reply))


def canon(v):
    """Comparable form of a request id."""
    return json.dumps(v, sort_keys=True)


class World:
    """Note files and the Emacs stand-in for a family of scenarios."""
    def __init__(self, ck, nurls=64):
        self.ck = ck
        self.dir = ck.dir("world")
        self.notes = os.path.join(self.dir, "notes.org")
        self.urls = ["https://n.example/u%03d/p" % k for k in range(nurls)]
        with open(self.notes, "w") as f:
            for k, u in enumerate(self.urls):
                f.write("* Heading %d\n  text [[%s][d %d]]\n" % (k, u, k))
        self.backend = ck.build("burl_backend")
        self.yielding = ck.build_yield("burl_backend")
        self.emacs_exe = ck.harness("fakeemacs")


IDS = [lambda r, i: i, lambda r, i: "s%d" % i, lambda r, i: -i - 1, lambda r, i: 2**53 + i,
       lambda r, i: i + 0.5, lambda r, i: "\u0434\u2028\U0001f600\"\\/%d" % i, lambda r, i: "",
       lambda r, i: [i, {"a": None}], lambda r, i: {"k": i}, lambda r, i: True, lambda r, i: 0,
       lambda r, i: "x" * r.choice([1, 500, 508, 512, 4096]) + str(i), lambda r, i: 123456789012345678901234567890 + i,
       lambda r, i: None]
PLAIN_IDS = [lambda r, i: i, lambda r, i: "s%d" % i]

TEXT = ["plain", "\u043f\u0440\u0438\u0432\u0435\u0442", "a\"b\\c/d", "<&>\u2028\u2029", "\U0001f600", "tab\tnl\ncr\r\x00\x1f\x7f", "{\"id\": 1}\n",
        "\u00e9" * 3, "%s%d%%", "\r\n\r\nContent-Length: 3\r\n", "[[x]]"]

BAD_BODIES = [b"[]", b"\"text\"", b"12", b"true", b"[{\"id\":1,\"method\":\"hello\",\"params\":[{}]}]", b"{", b"{\"id\":1,", b"xx", b"}",
              b"{\"id\":1,\"method\":5,\"params\":[]}", b"{\"id\":1 \"method\":\"hello\"}", b"\xff\xfe\x00", b"   ", b"", b"{'id':1}",
              b"{\"id\":1,\"method\":{},\"params\":[]}", b"nul", b"\x00", b"hello", b"<xml/>", b"{\"id\":1,\"method\":\"hello\",\"params\":[",
              b"{\"method\":[\"hello\"],\"id\":3,\"params\":[{}]}"]


class Item:
    pass


def make_item(w, rng, kind, i, opts):
    """Concrete frame number i (1-based) of the given abstract kind."""
    it = Item()
    it.kind, it.cls, it.gate, it.rel = kind, "none", None, {}
    it.obj = None
    idf = rng.choice(opts.get("ids", IDS))
    it.idv = idf(rng, i)
    size = opts.get("size")
    if kind == "ok":
        v = rng.choice(opts.get("ok", ["hello", "hello", "mention", "linkset", "preview", "denied", "unknown",
                                       "nourl", "nohello", "badprefix", "noparams"]))
        it.variant = v
        if v == "hello":
            tok = "%d:%s" % (i, rng.choice(TEXT))
            if size:
                n = size(rng)
                unit = rng.choice(TEXT + ["x"] * 8)
                tok += (unit * (n // max(1, len(unit)) + 1))[:n]
            it.obj = dict(method=rng.choice(ALIASES["hello"]), params=[hello_params(tok)])
            it.cls = "hello:" + digest(tok)
        elif v == "mention":
            u = w.urls[(i * 7 + rng.randrange(7)) % len(w.urls)]
            it.obj = dict(method=rng.choice(ALIASES["urlMentions"]), params=[{"variants": [u]}])
            it.cls = "urls:" + u
        elif v == "allmentions":
            it.obj = dict(method=rng.choice(ALIASES["urlMentions"]),
                          params=[{"variants": w.urls, "options": {"countLimit": 1000}}])
            it.cls = "urls:" + digest(" ".join(sorted(w.urls)))
        elif v == "linkset":
            u = w.urls[(i * 5) % len(w.urls)]
            it.obj = dict(method=rng.choice(ALIASES["linkSet"]), params=[{"prefix": [u[:-2]]}])
            it.cls = "set:" + u
        elif v == "preview":
            it.obj = dict(method=rng.choice(ALIASES["capture"]),
                          params=[{"format": "org-protocol", "version": "0.2", "data": {"url": "org-protocol:/x"}, "error": "e%d" % i}])
            it.cls = "preview"
        elif v == "denied":
            it.obj = dict(method=rng.choice(ALIASES["visit"]), params=[{"file": "/no/such/%d" % i, "lineNo": 1}])
            it.cls = "error"
        elif v == "unknown":
            it.obj = dict(method=rng.choice(["visit", "burl.search", "Burl.Hello", "nope", "", "Burl.Search", "unknown.hello"]), params=[{}])
            it.cls = "error"
        elif v == "nourl":
            it.obj = dict(method=rng.choice(ALIASES["urlMentions"]), params=[{"variants": ["", ""]}])
            it.cls = "error"
        elif v == "nohello":
            it.obj = dict(method=rng.choice(ALIASES["hello"]), params=[{"formats": [{"format": "org", "version": "1"}], "version": "1"}])
            it.cls = "error"
        elif v == "badprefix":
            it.obj = dict(method=rng.choice(ALIASES["linkSet"]), params=[{"prefix": [rng.choice(["", "1x", ":", "a b"])]}])
            it.cls = "error"
        elif v == "noparams":
            it.obj = dict(method=rng.choice(ALIASES["hello"]))
            it.cls = "error"
        elif v == "mentionerr":
            it.obj = dict(method=rng.choice(ALIASES["urlMentions"]), params=[{"variants": [w.urls[0]]}])
            it.cls = "error"
        elif v == "linkseterr":
            it.obj = dict(method=rng.choice(ALIASES["linkSet"]), params=[{"prefix": ["https"]}])
            it.cls = "error"
        elif v == "manyprefixes":
            it.obj = dict(method=rng.choice(ALIASES["linkSet"]), params=[{"prefix": ["p%d" % k for k in range(17)]}])
            it.cls = "error"
        else:
            raise ValueError(v)
    elif kind == "gated":
        fail = rng.random() < opts.get("gate_fail", 0.3)
        it.rel = dict(out=rng.choice(opts.get("noise", ["", "noise\n"])), err=rng.choice(opts.get("noise", ["", "noise\n"])),
                      exit=rng.choice([1, 9, 2, 255]) if fail else 0)
        if rng.random() < 0.5:
            it.gate = "+%d" % (1000 + i)
            it.obj = dict(method=rng.choice(ALIASES["visit"]), params=[{"file": w.notes, "lineNo": 1000 + i}])
            it.cls = "error" if fail else "true"
        else:
            it.gate = "org-protocol://capture?n=%d&t=%s" % (i, rng.choice(["a", "b%20c"]))
            it.obj = dict(method=rng.choice(ALIASES["capture"]),
                          params=[{"format": "org-protocol", "version": "0.2", "data": {"url": it.gate, "title": "t", "body": {}}, "error": None}])
            it.cls = "error" if fail else "success"
    elif kind == "bad":
        r = rng.random()
        bb = opts.get("badbody")
        if isinstance(bb, bytes):
            it.bytes = frame(bb)
        elif bb or opts.get("bad") == "oversize" or (opts.get("bad") is None and r < 0.35):
            n = rng.choice([2**30 + 1, 2**31 - 1, 2**31, 2**32 - 1, 0x7b226964])
            it.bytes = struct.pack("=I", n) + rng.choice([b"", b"", b"{\"id\":77,\"method\":\"hello\",\"params\":[{}]}", b"x" * 3000])
        else:
            it.bytes = frame(rng.choice(BAD_BODIES))
    elif kind == "trunc":
        r = rng.random()
        body = json.dumps(dict(id=i, method="hello", params=[hello_params("v" * rng.choice([1, 700]))])).encode()
        if r < 0.3:
            it.bytes = struct.pack("=I", len(body))[:rng.choice([1, 2, 3])]
        elif r < 0.45:
            it.bytes = struct.pack("=I", len(body))
        else:
            it.bytes = struct.pack("=I", len(body)) + body[:rng.randrange(1, len(body))]
    if it.obj is not None:
        d = dict(id=it.idv)
        d.update(it.obj)
        it.bytes = frame(json.dumps(d, ensure_ascii=rng.random() < 0.7).encode())
    return it


class Run:
    """Executes one scenario; self.trace is the record for SessionTrace."""
    def __init__(self, w, script, seed, opts, timeout=12.0):
        self.w, self.opts, self.timeout, self.wait = w, opts, timeout, timeout
        rng = self.rng = random.Random(seed)
        self.script, self.seed = script, seed
        self.items = []
        self.gates = {}
        self.lk = threading.Condition()
        d = os.path.join(w.dir, "s%d" % w.ck._uniq())
        os.makedirs(d, exist_ok=True)
        self.d = d
        self.emacs = Emacs(d, self.on_run)
        # the same program where goroutines may be switched at any statement
        exe = w.yielding if opts.get("burst") or random.Random("y%s" % seed).random() < 0.5 else w.backend
        args = [exe, "-emacsclient", w.emacs_exe]
        args += opts.get("args", [])
        args += ["-org", w.notes]
        log = opts.get("log")
        if log is not None:
            args += ["-log", log]
        self.byid = {}
        self.released = set()
        self.answered = set()
        self.b = Backend(args, env={"VERIF_EMACS_SOCK": self.emacs.path}, on_frame=self.on_frame)
        self.b.read_size = opts.get("read_size", 65536)
        try:
            self.execute()
        finally:
            self.b.kill()
            self.emacs.close()
            try:
                os.rmdir(d)
            except OSError:
                pass
        self.trace = dict(items=[dict(kind=x.kind, cls=x.cls) for x in self.items], ev=self.b.ev)

    # Emacs side
    def on_run(self, run):
        args = [a.decode("utf-8", "replace") for a in run.argv]
        joined = "\n".join(args)
        for i, it in enumerate(list(self.items), 1):
            if it.gate and it.gate in args:
                with self.lk:
                    self.gates[i] = run
                    self.b.log(e="start", i=i)
                    self.lk.notify_all()
                return
        if "memq 'org-protocol" in joined:
            run.answer(out="org-protocol\n")
        else:
            run.answer(out=self.rng.choice(self.opts.get("noise", ["", "t\n"])))

    # output side; called under the lock of the backend object
    def on_frame(self, obj):
        cls = classify(obj)
        same = self.byid.get(canon(obj.get("id")), [])
        if "id" not in obj or not same:
            return dict(e="alien", obj=json.dumps(obj)[:300])
        # Requests with equal ids can not be distinguished by the browser, the guess affects
        # only how long to wait, the specification considers all of them.
        cand = [i for i in same if i not in self.answered]
        best = [i for i in cand if self.items[i - 1].cls == cls and
                (self.items[i - 1].kind == "ok" or i in self.released)] or cand
        if best:
            self.answered.add(best[0])
        return dict(e="frame", c=list(same), cls=cls)

    def served(self):
        res = []
        for i, it in enumerate(self.items, 1):
            if it.kind not in ("ok", "gated"):
                break
            res.append(i)
        return res

    def quiet(self, released):
        must = [i for i in self.served() if self.items[i - 1].kind == "ok" or i in released]
        if not self.b.wait(lambda: self.b.eof or self.b.garbage is not None or all(i in self.answered for i in must), self.wait):
            # most probably it is stuck
            self.wait = self.timeout / 4
        self.b.log(e="quiet")

    def execute(self):
        b, rng, opts = self.b, self.rng, self.opts
        released = self.released
        if opts.get("stall"):
            b.go.clear()
        noclose = any(s.get("kind") == "bad" for s in self.script) and rng.random() < 0.7
        pend = []
        for n, st in enumerate(self.script):
            a = st["a"]
            if a == "send":
                it = make_item(self.w, rng, st["kind"], len(self.items) + 1, opts)
                self.items.append(it)
                if it.obj is not None:
                    with b.lock:
                        self.byid.setdefault(canon(it.idv), []).append(len(self.items))
                b.log(e="send", i=len(self.items))
                pend.append(it.bytes)
                if opts.get("burst") and n + 1 < len(self.script) and self.script[n + 1]["a"] == "send":
                    continue
                data, pend = b"".join(pend), []
                if not self.write(data):
                    b.log(e="lost")
            elif a == "wait":
                if not opts.get("stall"):
                    self.quiet(released)
            elif a == "release":
                i = st["i"]
                b.go.set()
                with self.lk:
                    got = self.lk.wait_for(lambda: i in self.gates, self.timeout)
                if not got:
                    b.log(e="nogate", i=i)
                    return
                released.add(i)
                b.log(e="release", i=i)
                threading.Thread(target=self.gates[i].answer, kwargs=self.items[i - 1].rel, daemon=True).start()
            elif a == "close":
                if not noclose:
                    b.log(e="close")
                    b.close_in()
                    # the program has time to forget what is not finished
                    time.sleep(opts.get("late", 0))
            elif a == "end":
                b.go.set()
                self.quiet(released)
                if b.wait_exit(self.timeout):
                    b.log(e="exit", code=b.exit)
                else:
                    b.log(e="hang")

    def write(self, data):
        cut = self.opts.get("cut")
        if not cut:
            return self.b.write(data)
        for piece in cut(self.rng, data):
            if not self.b.write(piece):
                return False
            self.b.drained(0.5)
        return True


WEAK = ("quiet", "hang", "nogate")


def run_scenarios(ck, w, jobs, timeout=12.0, workers=8, stop_after=6):
    """jobs: list of (script, seed, opts). Returns rejected runs (run, why) confirmed by a second
    run when the rejection depends on a timeout."""
    slow = []

    def run(j):
        # a program that is always stuck is not worth waiting for in every scenario
        if len(slow) >= 3 * workers:
            return None
        t = time.time() + j[2].get("late", 0) + timeout * 0.9
        r = Run(w, j[0], j[1], j[2], timeout)
        if r.b.garbage is not None or time.time() > t:
            slow.append(r)
        return r
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        runs = [r for r in ex.map(run, jobs) if r is not None]
    if len(runs) < len(jobs):
        ck.details["scenarios_skipped"] = len(jobs) - len(runs)
    traces = [r.trace for r in runs]
    rej = ck.accept("SessionTrace", traces, inv="TInv")
    res = []
    for tr, why in rej[:stop_after]:
        r = runs[tr["id"] - 1]
        ev = why["event"] or {}
        if ev.get("e") in WEAK:
            r2 = Run(w, r.script, r.seed, r.opts, timeout * 2.5)
            rej2 = ck.accept("SessionTrace", [r2.trace], inv="TInv")
            if not rej2:
                continue
            r, why = r2, rej2[0][1]
        res.append((r, why))
    return runs, res


def report(ck, rejected, what):
    for r, why in rejected:
        ck.violation("%s: event %d not allowed by the specification: %s" % (
            what, why["event_no"], json.dumps(why["event"])),
            dict(script=r.script, seed=r.seed, opts=repr(r.opts), trace=r.trace,
                 frames=[x.bytes[:300].decode("latin-1") for x in r.items], why=why))


def gen_scripts(ck, n, kinds, maxsent, minsent, depth=80, seedoff=0):
    r = ck.tlc("SessionGen", "INIT GInit\nNEXT GNext\nCONSTANTS\n Kinds = {%s}\n MaxSent = %d\n MinSent = %d\nCHECK_DEADLOCK FALSE\n" % (
        ", ".join('"%s"' % k for k in kinds), maxsent, minsent), simulate=n, depth=depth, seedoff=seedoff)
    return [p["script"] for p in r.printed]


def gen_many(ck, specs):
    """specs: list of (n, kinds, maxsent, minsent, depth); generated in parallel."""
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(gen_scripts, ck, *a, seedoff=1000 + j) for j, a in enumerate(specs)]
        return [f.result() for f in fs]

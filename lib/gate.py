"""Sessions whose openings and reads of note files wait for decisions (C09, C10)."""
import binascii, os, random, socket, subprocess, threading, time
from notes import *
from session import *
import vlib

SLOW = 15          # an answer that needs no waiting has to come in this time


class Stop:
    def __init__(self, op, id, name):
        self.op, self.id, self.name = op, id, name


class Gate(Backend):
    """Backend under opengate. Stops are kept in self.stops till release()."""

    def __init__(self, ck, notes, argv, reads=False, **kw):
        self.ctl, other = socket.socketpair()
        self.stops, self.finished = [], {}
        self.gone = False
        fd = other.fileno()
        os.set_inheritable(fd, True)
        wrapped = [ck.native("opengate")] + (["-r"] if reads else []) + [notes, str(fd), "--"] + argv
        self.sendlock = threading.Lock()
        Backend.__init__(self, wrapped, pass_fds=(fd,), **kw)
        other.close()
        self.gt = threading.Thread(target=self._gate, daemon=True)
        self.gt.start()

    def _gate(self):
        buf = b""
        while True:
            try:
                d = self.ctl.recv(65536)
            except OSError:
                d = b""
            if not d:
                break
            buf += d
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                op, id, rest = line.decode().split(" ")
                with self.lock:
                    if op == "done":
                        self.finished[id] = int(rest)
                    else:
                        s = Stop(op, id, os.fsdecode(binascii.unhexlify(rest)))
                        self.stops.append(s)
                    self.lock.notify_all()
        with self.lock:
            self.gone = True
            self.lock.notify_all()

    def release(self, s, err=0, event=None):
        """Lets a stopped operation go on or fail; returns its result."""
        with self.lock:
            if s not in self.stops:
                return None     # somebody else lets it go on
            self.stops.remove(s)
            if event:
                self.ev.append(event)
        with self.sendlock:
            try:
                self.ctl.sendall(b"%s %s\n" % (s.id.encode(), str(err).encode() if err else b"c"))
            except OSError:
                return None

        def ready():
            return s.id in self.finished or self.gone
        self.wait(ready, 20)
        return self.finished.get(s.id)

    def quiet(self, t=0.003, limit=0.5):
        """Waits till nothing happens any more."""
        end = time.time() + limit
        while time.time() < end:
            with self.lock:
                n = (len(self.ev), len(self.stops), len(self.finished))
                self.lock.wait(t)
                if n == (len(self.ev), len(self.stops), len(self.finished)):
                    return

    def kill(self):
        try:
            self.ctl.close()
        except OSError:
            pass
        # the gate process is killed first, its child ends then with the pipe or with the gate
        Backend.kill(self)


def links_of(doc):
    return [l["url"] for ln in doc.lines for l in ln["links"]]


class Scene:
    """Note files with versions and a gated session."""

    def __init__(self, ck, name, r, nf, nv, reads=False, auto=False, txt=True, size=8, log=None):
        self.ck, self.r, self.nf, self.nv = ck, r, nf, nv
        base = os.path.realpath(ck.dir(name))
        self.notes = os.path.join(base, "notes")
        self.store = os.path.join(base, "store")
        os.mkdir(self.notes)
        os.mkdir(self.store)
        self.docs = []
        pool = ["https://common.example/%s" % x for x in "abcd"]
        kinds = [r.random() < 0.3 and txt for _ in range(nf)]
        self.paths = [os.path.join(self.notes, "n%d.%s" % (f, "txt" if kinds[f] else "org")) for f in range(nf)]
        for f in range(nf):
            vs = []
            for v in range(nv):
                p = os.path.join(self.store, "%d.%d" % (f, v))
                d = rand_doc(r, p, pool + ["https://f%d.example/%s" % (f, x) for x in "xyz"], n=r.choice([1, size, size]), maxlvl=3, txt=kinds[f], plink=0.5)
                d.body(r, ["https://f%d.example/version/%d" % (f, v)])
                d.write()
                d.path = self.paths[f]
                vs.append(d)
            self.docs.append(vs)
        self.pool = pool
        self.cur = [0] * nf
        for f in range(nf):
            self.put(f, 0)
        self.reqs = {}
        self.n = 0
        self.mu = threading.Lock()
        argv = [ck.backend(), "-log", ""]
        for f in range(nf):
            argv += ["-txt" if kinds[f] else "-org", self.paths[f]]
        self.g = Gate(ck, self.notes, argv, reads=reads, on_frame=self.frame)
        self.faults = 0
        self.over = False
        if auto:
            threading.Thread(target=self._auto, daemon=True).start()

    def _auto(self):
        while not self.over and not self.g.gone:
            if not self.grant():
                with self.g.lock:
                    if not self.g.stops:
                        self.g.lock.wait(0.05)

    def put(self, f, v):
        tmp = self.paths[f] + ".tmp"
        os.link(os.path.join(self.store, "%d.%d" % (f, v)), tmp)
        os.replace(tmp, self.paths[f])
        self.cur[f] = v

    def file(self, s):
        n = s.name.split(" (deleted)")[0]
        for f, p in enumerate(self.paths):
            if os.path.basename(p) == n:
                return f
        return None

    def frame(self, obj):
        rid = obj.get("id")
        q = self.reqs.get(rid) if isinstance(rid, int) else None
        if q is None:
            return dict(e="recv", r=0)
        q["frame"] = obj
        err = obj.get("error") is not None
        res = obj.get("result")
        e = dict(e="recv", r=rid, err=err, urls=[], total=0, f=0)
        if q["k"] == "M" and not err:
            o = mention(obj)
            e["total"] = o["total"]
            # the only file of an answer stands for the group
            e["f"] = self.paths.index(o["path"]) + 1 if o["t"] == "File" and o["path"] in self.paths else 0
            urls = []
            walk_urls(o, urls)
            e["urls"] = sorted(set(urls))
        elif q["k"] == "L" and not err:
            u = res.get("urls") if isinstance(res, dict) else None
            # a repeated address would be lost in a set
            e["urls"] = [str(x) for x in u or []]
            if len(set(e["urls"])) != len(e["urls"]):
                e["urls"].append("repeated")
        if err and res not in (None, False) and res != {} :
            e["err"] = False
            e["urls"] = ["?"]
            e["total"] = -1
        return e

    def query(self, kind):
        r = self.r
        if kind == "M":
            marks = ["https://f%d.example/version/%d" % (f, v) for f in range(self.nf) for v in range(self.nv)]
            own = ["https://f%d.example/%s" % (f, x) for f in range(self.nf) for x in "xyz"]
            q = r.choice([marks, marks + self.pool, self.pool, r.sample(marks + self.pool + own, 3), own, self.pool + own + marks, ["https://absent.example/"]])
            return q, r.choice([1000, 1000, 0, 1, 2, 3, 5, 8])
        if kind == "L":
            return r.choice([["https:"], ["https://f0.example/"], ["https://common.example/"], ["https://f0.example/version/", "https://f1.example/"], ["https://absent.example"]]), 0
        return [], 0

    def send(self, kind, q=None, limit=0):
        if q is None:
            q, limit = self.query(kind)
        if kind == "L" and sum(x["k"] == "L" and x["frame"] is None for x in self.reqs.values()) > 2:
            # the specification has to guess whom an opened file belongs to
            kind, q = "O", []
        self.n += 1
        r = self.r
        if kind == "M":
            p = dict(variants=q, options=dict(countLimit=limit))
            if limit == 8 and r.random() < 0.5:
                del p["options"]
            body = dict(id=self.n, method=r.choice(["burl.urlMentions", "linkremark.urlMentions"]), params=[p])
        elif kind == "L":
            body = dict(id=self.n, method=r.choice(["burl.linkSet", "linkremark.linkSet"]), params=[dict(prefix=q)])
        elif kind == "X":
            body = r.choice([dict(id=self.n, method="burl.visit", params=[dict(path="/etc/passwd", lineNo=1)]), dict(id=self.n, method="burl.linkSet", params=[dict(prefix=["p%d:" % k for k in range(40)])]),
                             dict(id=self.n, method="burl.nothing", params=[{}]), dict(id=self.n, method="burl.capture", params=[dict(format="none")])])
        elif kind == "E":
            body = dict(id=self.n, method="burl.urlMentions", params=[dict(variants=r.choice([[], [""], ["", ""]]))])
        else:
            body = dict(id=self.n, method="hello", params=[hello_params("0.3")])
        self.reqs[self.n] = dict(k=kind, q=q, limit=limit, frame=None)
        self.g.log(e="send", r=self.n, k="X" if kind == "E" else kind, q=list(q), limit=limit)
        self.g.write(frame(body))
        return self.n

    def answered(self, rid):
        return self.reqs[rid]["frame"] is not None

    def change(self, f=None):
        fs = [f] if f is not None else list(range(self.nf))
        self.r.shuffle(fs)
        for f in fs:
            if self.cur[f] + 1 < self.nv:
                with self.mu:
                    self.put(f, self.cur[f] + 1)
                    self.g.log(e="change", f=f + 1, v=self.cur[f] + 1)
                return

    def grant(self, s=None, err=0):
        """One stopped operation goes on; False if there is none."""
        with self.g.lock:
            ss = list(self.g.stops)
        if s is None:
            if not ss:
                return False
            s = self.r.choice(ss) if len(ss) > 1 else ss[0]
        f = self.file(s)
        ev = None
        if f is not None:
            if s.op == "open":
                ev = dict(e="open", f=f + 1, ok=not err)
            elif err:
                ev = dict(e="rfail", f=f + 1)
        with self.mu:
            res = self.g.release(s, err if f is not None else 0, ev)
        if res is not None and res != (-err if f is not None else 0) and f is not None:
            raise vlib.MachineryError("opengate: unexpected result %r of %s %s" % (res, s.op, s.name))
        if err and f is not None:
            self.faults += 1
        return True

    def probe(self, kind, hold):
        """kind has to be answered while the operations in hold are stopped."""
        rid = self.send(kind)
        end = time.time() + SLOW
        while not self.answered(rid):
            with self.g.lock:
                new = [s for s in self.g.stops if s not in hold]
                if not new:
                    if self.answered(rid) or self.g.eof or time.time() > end:
                        break
                    self.g.lock.wait(0.05)
                    continue
            self.grant(new[0])
        if not self.answered(rid):
            self.g.log(e="stuck", r=rid)
            return False
        return True

    def finish(self):
        """Everything goes on; True if every request is answered."""
        end = time.time() + 2 * SLOW
        ok = True
        while not all(q["frame"] for q in self.reqs.values()):
            if self.grant():
                continue
            with self.g.lock:
                if self.g.eof or time.time() > end:
                    ok = False
                    break
                if not self.g.stops and not all(q["frame"] for q in self.reqs.values()):
                    self.g.lock.wait(0.05)
        return ok

    def close(self):
        self.over = True
        self.g.close_in()
        end = time.time() + SLOW
        while self.g.p.poll() is None and time.time() < end:
            if not self.grant():
                self.g.wait_exit(0.02)
        ok = self.g.wait_exit(1)
        self.g.log(e="eof" if ok and self.g.p.returncode == 0 and self.g.garbage is None else "crash")
        self.g.kill()

    def trace(self):
        return dict(cfg=dict(links=[[links_of(d) for d in vs] for vs in self.docs]), ev=[dict(e) for e in self.g.ev])

    def cases(self):
        """Answers of mention queries for module Mentions if the snapshot is known."""
        vec = {}
        ms = [q for q in self.reqs.values() if q["k"] == "M" and q["frame"] and q["frame"].get("error") is None]
        for q in ms:
            urls = []
            walk_urls(mention(q["frame"]), urls)
            for u in urls:
                for f in range(self.nf):
                    p = "https://f%d.example/version/" % f
                    if u.startswith(p):
                        vec.setdefault(f, set()).add(int(u[len(p):]))
        if len(vec) != self.nf or any(len(x) != 1 for x in vec.values()):
            return []
        files = [self.docs[f][vec[f].pop()].model() for f in range(self.nf)]
        return [dict(prop=p, files=files, q=q["q"], limit=q["limit"], out=mention(q["frame"])) for q in ms for p in (("C06", "C07", "C08") if q["limit"] >= 1000 else ("C08",))]


def walk_urls(n, urls):
    for l in n["links"]:
        urls.append(l["url"])
    for c in n["ch"]:
        walk_urls(c, urls)

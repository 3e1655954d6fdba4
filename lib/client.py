"""Sessions of the client library with a scripted backend process."""
import json, os, random, re, socket, struct, subprocess, threading, time

GRACE = 15.0
STATUS = [1, 2, 3, 7, 126, 255]
OKS = [0, 1, -1, 12345678901234567890, 1.5, 1e300, False, True, "", "text", "\u0434\u20ac\U0001f600\u2028", "a\"\\/\b\n", [], {}, [None],
       {"a": None, "b": [1, {"c": []}]}, "x" * 4096, "y" * 70000, [0] * 300, {"error": "no", "result": 1, "id": 0}]
ERRS = ["no", "can't find service x", "\u0434\U0001f600", "quote \" and \\", "line\nbreak", "e" * 5000, "0", "null", " "]


def frame(b):
    return struct.pack("=I", len(b)) + b


class Peer:
    """The backend's side."""
    def __init__(self, path):
        self.srv = socket.socket(socket.AF_UNIX)
        self.srv.bind(path)
        self.srv.listen(1)
        self.conn = None

    def accept(self, timeout=20):
        self.srv.settimeout(timeout)
        self.conn, _ = self.srv.accept()
        self.srv.close()

    def get(self, n):
        b = b""
        while len(b) < n:
            x = self.conn.recv(min(n - len(b), 1 << 16))
            if not x:
                return None
            b += x
        return b

    def messages(self):
        while True:
            try:
                h = self.get(5)
                if h is None:
                    return
                d = self.get(struct.unpack("<I", h[1:])[0])
            except OSError:
                return
            if d is None:
                return
            yield h[:1], d

    def tell(self, kind, data=b""):
        try:
            self.conn.sendall(kind + struct.pack("<I", len(data)) + data)
        except OSError:
            pass

    def close(self):
        for s in (self.conn, self.srv):
            if s:
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                s.close()


HUNG = []           # sessions that had to wait in vain; a few of them are enough


class Session:
    def __init__(self, ck, name, rng, calls, argv=None):
        self.r = rng
        self.n = calls
        self.ev = []
        self.cv = threading.Condition()
        self.issued = {}
        self.ids = {}
        self.done = set()
        self.typed = set()
        self.up = True
        self.deaf = False
        self.closed = None
        self.ineof = False
        self.started = None
        self.sent, self.badparam = {}, set()
        self.buf = b""
        d = ck.dir("client/" + name)
        sock = os.path.join(d, "s")
        self.peer = Peer(sock)
        self.h = subprocess.Popen([ck.harness("client", yields=ck._uniq() % 2 == 0)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.t1 = threading.Thread(target=self._events, daemon=True)
        self.t1.start()
        kind = "ok"
        if argv is not None:
            kind = "none" if not argv else "bad"
        self.extra = [rng.choice(["", "a b", "-x", "--", "*", "\u0434", "'\"\\"]) for _ in range(rng.randrange(4))]
        self.want = [ck.harness("peer"), sock] + self.extra
        self.say(op="start", argv=self.want if argv is None else argv)
        self.wait(lambda: self.started is not None)
        s = self.started
        if kind == "ok" and s and not s["err"]:
            try:
                self.peer.accept()
            except socket.timeout:
                # it was reported that the backend had been started
                HUNG.append(name)
                self.up = False
                self.put("startbroken", 0, kind, 0)
                return
            self.t2 = threading.Thread(target=self._requests, daemon=True)
            self.t2.start()
        else:
            self.up = False
        ok = bool(s) and bool(s["err"]) != s["client"]
        self.put("start" if ok else "startbroken", 0, kind, 0 if s and not s["err"] else 1)

    def put(self, e, c=0, k="", v=0):
        with self.cv:
            self.ev.append(dict(e=e, c=c, k=k, v=v))
            self.cv.notify_all()

    def wait(self, cond, timeout=GRACE):
        with self.cv:
            ok = self.cv.wait_for(lambda: cond() or self.crashed, timeout) and cond()
        if not ok:
            HUNG.append(1)
        return ok

    def say(self, **kw):
        try:
            self.h.stdin.write(json.dumps(kw).encode() + b"\n")
            self.h.stdin.flush()
        except OSError:
            pass

    # ---- what is observed -------------------------------------------------
    def _events(self):
        for line in self.h.stdout:
            m = json.loads(line)
            with self.cv:
                if m["e"] == "started":
                    self.started = m
                elif m["e"] == "done":
                    k, v = self.outcome(m)
                    self.ev.append(dict(e="done", c=m["c"], k=k, v=v))
                    self.done.add(m["c"])
                elif m["e"] == "closed":
                    self.closed = m
                    self.closeerr = m["err"]
                    self.ev.append(dict(e="closed", c=0, k="gone" if m["gone"] else "left", v=1 if m["err"] else 0))
                self.cv.notify_all()
        with self.cv:
            self.started = self.started or False
            self.crashed = True
            self.cv.notify_all()

    def outcome(self, m):
        c = m["c"]
        err = m["err"]
        sent = self.sent.get(c, {})
        if not err:
            res = m["result"]
            if c not in self.typed:
                try:
                    res = json.loads(res)
                except ValueError:
                    return "odd", 0
            for (k, v), x in sent.items():
                if k == "ok" and json.dumps(x, sort_keys=True) == json.dumps(res, sort_keys=True):
                    return "ok", v
            return "odd", 0
        err = err[1:]
        for (k, v), x in sent.items():
            if k == "err" and x == err:
                return "err", v
        if c in self.badparam and re.search("unsupported (type|value)|cannot marshal|NaN|chan|func", err):
            return "bad", 0
        if "reading body" in err and any(k == "typ" for k, v in sent):
            return "typ", 0
        return "fail", 0

    def _requests(self):
        for kind, d in self.peer.messages():
            with self.cv:
                if not self.up:
                    continue
                if kind == b"A":
                    if json.loads(d) != self.want:
                        self.ev.append(dict(e="argv", c=0, k="", v=0))
                elif kind == b"E":
                    self.ineof = True
                    self.ev.append(dict(e="ineof", c=0, k="", v=0))
                elif kind == b"F":
                    self.isdeaf = True
                elif kind == b"D" and not self.deaf:
                    self.buf += d
                    while len(self.buf) >= 4:
                        n = struct.unpack("=I", self.buf[:4])[0]
                        if len(self.buf) < 4 + n:
                            break
                        body, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
                        self.ev.append(dict(e="recv", c=self.request(body), k="", v=0))
                self.cv.notify_all()

    def request(self, body):
        try:
            m = json.loads(body)
            c = m["params"][0]["n"]
            if set(m) != {"id", "method", "params"} or m["params"] != [self.issued[c][1]] or m["method"] != self.issued[c][0]:
                return 0
            self.ids[c] = m["id"]
            if list(self.ids.values()).count(m["id"]) != 1:
                return 0
            return c
        except (ValueError, KeyError, TypeError, IndexError):
            return 0

    # ---- what the environment does ---------------------------------------
    def issue(self, c, bad=False):
        r = self.r
        m = "M%d.%s" % (c, r.choice(["a", "\u0434", "x\"y"]))
        p = dict(n=c, pad=r.choice(["", "", "text", "\u20ac", "p" * 5000, "q" * 40000, [1, {"z": None}]]))
        with self.cv:
            self.issued[c] = (m, p)
            self.ev.append(dict(e="bad" if bad else "issue", c=c, k="", v=0))
        if bad:
            self.badparam.add(c)
            self.say(op="go", c=c, method=m, bad=r.choice(["chan", "nan", "func"]))
        else:
            self.say(op="go", c=c, method=m, param=p, typ=c in self.typed)

    def text(self, i, result=None, error=None, both=False):
        r = self.r
        f = [("id", i), ("result", result), ("error", error)]
        if both:
            f = [("id", i), ("result", {"id": 5}), ("error", error)]
        if error is not None and not both and r.random() < 0.3:
            f = [("id", i), ("error", error)]
        if error is None and r.random() < 0.3:
            f = [("id", i), ("result", result)]
        if r.random() < 0.2:
            f.append(("jsonrpc", "2.0"))
        if r.random() < 0.4:
            r.shuffle(f)
        s = json.dumps(dict(f), ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 1])).encode("utf-8", "surrogatepass")
        return r.choice([b"", b"", b" ", b"\n\t"]) + s + r.choice([b"", b"\n", b" \r\n", b" " * 600])

    def make(self, c, k, v):
        r = self.r
        sent = self.sent.setdefault(c, {})
        if (k, v) not in sent:
            used = [json.dumps(x) for x in sent.values()]
            pool = ERRS if k == "err" else [x for x in OKS if isinstance(x, str) or isinstance(x, list)] if k == "typ" else \
                [0, 1, -5, 70000, 123456789] if c in self.typed else OKS
            sent[k, v] = r.choice([x for x in pool if json.dumps(x) not in used])
        x = sent[k, v]
        i = self.ids[c]
        return frame(self.text(i, error=x, both=r.random() < 0.3) if k == "err" else self.text(i, result=x))

    def write(self, data):
        r = self.r
        if r.random() < 0.3 and len(data) > 4:
            p = r.randrange(1, len(data))
            self.peer.tell(b"W", data[:p])
            if r.random() < 0.5:
                time.sleep(0.003)
            self.peer.tell(b"W", data[p:])
        else:
            self.peer.tell(b"W", data)

    def reply(self, c, k, v):
        self.wait(lambda: c in self.ids or c in self.done or not self.up)
        with self.cv:
            if c not in self.ids or not self.up:
                return None
            self.ev.append(dict(e="reply", c=c, k=k, v=v))
            return self.make(c, k, v)

    def broken(self):
        r = self.r
        i = r.choice(list(self.ids.values()) or [0])
        return r.choice([frame(b'{"id":'), frame(b"[]"), frame(b'"text"'), frame(b"17"), frame(b""), frame(b"   "), frame(b"{]"),
                         frame(b'{"id":%d,"result":1,"error":null' % i), frame(b'{"id":%d,"result":1,"error":{"code":1}}' % i),
                         frame(b'{"id":%d,"result":null,"error":77}' % i), frame(b'{"id":-1,"result":1}'), frame(b'{"id":"%d","result":1}' % i),
                         frame(b'{"id":%d}' % i), frame(b'{"id":%d,"result":null,"error":null}' % i), b"\xff\xff\xff\xff", struct.pack("=I", 1 << 30 | 1),
                         frame(b'{"id":1.5,"result":1}'), frame(b"\xff\xfe"), frame(b"not JSON")])

    def stray(self):
        r = self.r
        i = r.choice([1000, 99999, 2 ** 63, 2 ** 64 - 1])
        return frame(self.text(i, result=r.choice(OKS))) if r.random() < 0.6 else frame(self.text(i, error=r.choice(ERRS)))

    def other(self, k):
        if not self.up:
            return
        if k == "eof":
            tail = self.r.choice([b"", b"", b"\x05", b"\x05\x00\x00", frame(b'{"id":0,"result":1}')[:-3], struct.pack("=I", 100)])
            self.put("other", 0, "eof")
            if tail:
                self.peer.tell(b"W", tail)
            self.peer.tell(b"C")
        elif k == "break":
            self.put("other", 0, "break")
            self.write(self.broken())
        else:
            self.put("other", 0, "stray")
            self.write(self.stray())

    def make_deaf(self):
        with self.cv:
            out = [c for c in self.issued if c not in self.badparam]
        if not self.wait(lambda: all(c in self.ids or c in self.done for c in out)) or not self.up:
            return
        with self.cv:
            if not all(c in self.ids for c in out):
                return
            self.deaf = True
        self.peer.tell(b"F")
        if self.wait(lambda: self.isdeaf):
            self.put("deaf")

    def exit(self, status):
        if not self.up:
            return
        with self.cv:
            self.up = False
            self.ev.append(dict(e="exit", c=0, k="", v=status))
        if status and self.r.random() < 0.3:
            self.peer.tell(b"K", b"%d" % self.r.choice([9, 15, 6]))
        else:
            self.peer.tell(b"X", b"%d" % (status and self.r.choice(STATUS)))

    def close(self):
        self.put("close")
        self.say(op="close")
        if self.up and not self.deaf:
            if not self.wait(lambda: self.ineof):
                self.put("noeof")

    isdeaf = False
    crashed = False

    def settle(self, cs=None):
        """Waits for outcomes, those that do not come are reported."""
        with self.cv:
            cs = list(cs if cs is not None else self.issued)
        self.wait(lambda: all(c in self.done for c in cs))
        with self.cv:
            left = [c for c in cs if c not in self.done]
        for c in left:
            self.put("stuck", c)

    def finish(self):
        if self.up:
            self.exit(0)
        if not self.wait(lambda: self.closed is not None):
            self.put("notclosed")
        self.settle()
        self.put("end")
        self.kill()

    def kill(self):
        self.peer.close()
        self.h.kill()
        self.h.wait()
        try:
            self.h.stdin.close()
        except OSError:
            pass
        self.t1.join(5)
        self.h.stdout.close()

"""Ends of real backends; records are judged by specs/EndingTrace.tla."""
import json, os, random, select, signal, struct, subprocess, threading, time
from session import Emacs, frame


def cpu(pid):
    with open("/proc/%d/stat" % pid, "rb") as f:
        rest = f.read().decode("latin-1")
    rest = rest[rest.rindex(")") + 2:].split()
    return (int(rest[11]) + int(rest[12])) * 1000 // os.sysconf("SC_CLK_TCK")


class Session:
    """One backend process with the browser's ends of its pipes under control."""
    def __init__(self, w, k, log, wait):
        # in some sessions Emacs clients have been started before anything ends
        self.w, self.wait, self.settle = w, wait, k % 3 != 1
        self.d = os.path.join(w.dir, "s%d" % w.ck._uniq())
        os.mkdir(self.d)
        self.lk = threading.Condition()
        self.ev, self.open, self.held = [], {}, {}
        self.n, self.inp, self.outp, self.term, self.late, self.stall = 0, True, True, False, False, False
        self.over = self.clogged = False
        self.e = Emacs(self.d, self.on_run)
        argv = [w.exe, "-emacsclient", w.emacs, "-org", w.notes]
        if log:
            argv[1:1] = ["-log", os.path.join(self.d, "log")]
        self.errp = os.path.join(self.d, "err")
        with open(self.errp, "wb") as err:
            self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, bufsize=0,
                                      env={"PATH": "/usr/bin:/bin", "VERIF_EMACS_SOCK": self.e.path})
        self.wr, self.ww = os.pipe()
        self.go = threading.Event()
        self.go.set()
        self.t = threading.Thread(target=self.reader, daemon=True)
        self.t.start()

    def log(self, **kw):
        with self.lk:
            self.ev.append(kw)
            self.lk.notify_all()

    def on_run(self, run):
        no = [a.decode("utf-8", "replace") for a in run.argv if a.startswith(b"+")]
        if not no:
            return run.answer(out="t\n")
        with self.lk:
            self.held[int(no[0][1:])] = run
            self.lk.notify_all()

    def reader(self):
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            want = [self.wr] + ([fd] if self.go.is_set() else [])
            ready = select.select(want, [], [])[0]
            if self.wr in ready:
                c = os.read(self.wr, 1)
                if c == b"q":
                    break
                continue
            d = os.read(fd, 65536)
            if not d:
                break
            buf += d
            while len(buf) >= 4:
                n = struct.unpack("=I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                body, buf = buf[4:4 + n], buf[4 + n:]
                try:
                    i = json.loads(body)["id"]
                except (ValueError, KeyError, TypeError):
                    i = 0
                with self.lk:
                    self.open.pop(i, None)
                    self.ev.append(dict(e="resp", i=i))
                    self.lk.notify_all()
        self.p.stdout.close()

    def write(self, data):
        # the program may not read any more
        try:
            fd = self.p.stdin.fileno()
            os.set_blocking(fd, False)
            v = memoryview(data)
            while v:
                if not select.select([], [fd], [], 5)[1]:
                    self.clogged = True
                    return
                v = v[os.write(fd, v):]
        except (OSError, ValueError):
            pass

    def send(self, q):
        self.n += 1
        if q == "V":
            body = dict(method="linkremark.visit", params=[dict(file=self.w.notes, lineNo=self.n)])
        else:
            v = "x" * 200000 if q == "B" else "0.2"
            body = dict(method="hello", params=[dict(formats=[dict(format="org-protocol", version=v)], version="1")])
        with self.lk:
            self.open[self.n] = "held" if q == "V" else "big" if q == "B" else "ok"
            self.ev.append(dict(e="req", i=self.n, held=q == "V", big=q == "B"))
            if not self.outp and q != "V":
                self.late = True
        self.write(frame(json.dumps(dict(id=self.n, **body)).encode()))

    def must(self):
        held = sum(v == "held" for v in self.open.values())
        if self.term:
            return True
        if self.stall and self.outp and len(self.open) > held:
            return False
        return (not self.inp and not held) or (not self.outp and self.late)

    def ended(self, timeout):
        if self.over:
            return True
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        # everything that has been written is read before the end is recorded
        if self.outp:
            self.go.set()
            os.write(self.ww, b"w")
            self.t.join(5)
        self.over = True
        self.log(e="ended", status=str(rc), noise=os.path.getsize(self.errp) > 0)
        return True

    def probe(self):
        if self.over:
            return
        if self.ended(self.wait if self.must() else 0.04):
            return
        a = cpu(self.p.pid)
        time.sleep(0.25)
        try:
            b = cpu(self.p.pid)
        except OSError:
            b = a
        if self.ended(0):
            return
        self.log(e="alive", cpu=(b - a) * 100 // 250)

    def release(self):
        with self.lk:
            first = [i for i, v in self.open.items() if v == "held"][:1]
            if not first:
                return
            i = first[0]
            self.lk.wait_for(lambda: i in self.held or self.p.poll() is not None, 5)
            run = self.held.pop(i, None)
            self.open[i] = "ok"
            if run is None:
                # the client was not started: it is judged as if it waited
                if self.p.poll() is None:
                    self.ev.append(dict(e="nostart", i=i))
                return
            self.ev.append(dict(e="release", i=i))
            if not self.outp:
                self.late = True
        threading.Thread(target=run.answer, kwargs=dict(out="t\n"), daemon=True).start()

    def started(self):
        """Waits till Emacs clients of the requests are running; with a full output some may be not."""
        with self.lk:
            self.lk.wait_for(lambda: all(v != "held" or i in self.held for i, v in self.open.items()) or self.p.poll() is not None, 0.2 if self.stall else 2)

    def step(self, a):
        if a in "IGT" and self.settle:
            self.started()
        if a in "OBV":
            self.send(a)
        elif a == "P":
            self.write(b"\x30\x00\x00\x00{\"id\": 77"[:4 + self.n % 8])
        elif a == "H":
            self.write(b"\x05\x00\x00"[:1 + self.n % 3])
        elif a == "r":
            self.release()
        elif a == "I":
            self.inp = False
            self.log(e="closein")
            self.p.stdin.close()
        elif a == "G":
            self.outp = False
            # the record precedes the fact for what is sent later and follows it for what was sent before
            os.write(self.ww, b"q")
            self.t.join(5)
            with self.lk:
                self.ev.append(dict(e="gone"))
                if "big" in self.open.values():
                    self.late = True
        elif a == "T":
            self.term = True
            self.log(e="term")
            self.p.send_signal(signal.SIGTERM)
        elif a == "s":
            self.stall = True
            self.go.clear()
            os.write(self.ww, b"w")
            self.log(e="stall")
        elif a == "u":
            self.stall = False
            self.log(e="resume")
            self.go.set()
            os.write(self.ww, b"w")
        elif a == ".":
            time.sleep(0.03)
        elif a == "?":
            self.probe()

    def run(self, plan):
        try:
            for a in plan:
                if self.ended(0):
                    break
                self.step(a)
                if self.clogged:
                    return
            # the session is completed
            while not self.ended(0) and "held" in self.open.values():
                self.release()
            if self.stall and self.outp:
                self.step("u")
            if self.inp and not self.ended(0):
                self.step("I")
            self.probe()
        finally:
            self.p.kill()
            self.p.wait()
            if self.outp:
                os.write(self.ww, b"q")
                self.t.join(5)
            try:
                self.p.stdin.close()
            except OSError:
                pass
            os.close(self.wr)
            os.close(self.ww)
            for r in list(self.held.values()):
                r.conn.close()
            self.e.close()
            with open(self.errp, "rb") as f:
                self.err = f.read(3000).decode("latin-1")
            for n in os.listdir(self.d):
                os.unlink(os.path.join(self.d, n))
            os.rmdir(self.d)

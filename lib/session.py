"""Drives a real burl_backend over pipes with a scripted Emacs client and records events."""
import json, os, socket, struct, subprocess, threading, time, queue, fcntl, array, termios


def frame(obj_or_bytes):
    b = obj_or_bytes if isinstance(obj_or_bytes, bytes) else json.dumps(obj_or_bytes).encode()
    return struct.pack("=I", len(b)) + b


class EmacsRun:
    """One start of the Emacs client stand-in, blocked until answered."""
    def __init__(self, conn, info):
        self.conn = conn
        self.argv = [bytes.fromhex(a) for a in info["argv"]]
        self.stdin = info["stdin"]
        self.pid = info["pid"]
        self.fds = info.get("fds", [])
        self.answered = False

    def answer(self, out="", err="", exit=0, sig=0, read=False):
        self.answered = True
        try:
            self.conn.sendall((json.dumps(dict(out=out, err=err, exit=exit, sig=sig, read=read)) + "\n").encode())
            # wait for the end of the process: its socket is closed
            self.conn.settimeout(20)
            while self.conn.recv(100):
                pass
        except OSError:
            pass
        self.conn.close()


class Emacs:
    """Server side of the stand-in. on_run(run) is called in a thread per run;
    by default runs are put into a queue."""
    def __init__(self, dirname, on_run=None):
        self.path = os.path.join(dirname, "emacs.sock")
        self.s = socket.socket(socket.AF_UNIX)
        self.s.bind(self.path)
        os.chmod(self.path, 0o777)
        self.s.listen(128)
        self.q = queue.Queue()
        self.on_run = on_run or self.q.put
        self.closed = False
        self.runs = 0
        t = threading.Thread(target=self._loop, daemon=True)
        t.start()

    def _loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self._conn, args=(c,), daemon=True).start()

    def _conn(self, c):
        buf = b""
        try:
            while not buf.endswith(b"\n"):
                d = c.recv(65536)
                if not d:
                    return
                buf += d
        except OSError:
            return
        self.runs += 1
        self.on_run(EmacsRun(c, json.loads(buf)))

    def close(self):
        self.closed = True
        try:
            self.s.close()
            os.unlink(self.path)
        except OSError:
            pass


class Backend:
    """The process under test. Events are appended to self.ev in one order."""
    def __init__(self, argv, env=None, cwd=None, user=None, stderr=None, on_frame=None, keep_raw=False,
                 limit_as=None, pass_fds=()):
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "GOTRACEBACK": "all"}
        if env:
            e.update(env)
        self.errf = stderr or subprocess.DEVNULL
        kw = {}
        if user is not None:
            kw = dict(user=user, group=user, extra_groups=[])
        if pass_fds:
            kw["pass_fds"] = pass_fds
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e, cwd=cwd, bufsize=0, **kw)
        self.fdin = self.p.stdin.fileno()
        self.lock = threading.Condition()
        self.ev = []
        self.frames = []      # decoded responses in order
        self.garbage = None   # bytes that do not form a frame
        self.eof = False
        self.exit = None
        self.raw = [] if keep_raw else None
        self.on_frame = on_frame
        self.go = threading.Event()
        self.go.set()
        self.read_size = 65536
        self.read_delay = 0
        self.t = threading.Thread(target=self._reader, daemon=True)
        self.t.start()
        self.broken_pipe = False

    def log(self, **kw):
        with self.lock:
            self.ev.append(kw)
            self.lock.notify_all()

    def _reader(self):
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            self.go.wait()
            if self.read_delay:
                time.sleep(self.read_delay)
            try:
                d = os.read(fd, self.read_size)
            except OSError:
                d = b""
            if self.raw is not None:
                self.raw.append(d)
            if not d:
                break
            buf += d
            while len(buf) >= 4:
                n = struct.unpack("=I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                body, buf = buf[4:4 + n], buf[4 + n:]
                self._frame(body)
        with self.lock:
            if buf:
                self.garbage = buf
                self.ev.append(dict(e="garbage"))
            self.eof = True
            self.lock.notify_all()

    def _frame(self, body):
        try:
            obj = json.loads(body.decode("utf-8"))
            if not isinstance(obj, dict):
                obj = None
        except ValueError:
            obj = None
        with self.lock:
            if obj is None:
                self.garbage = body
                self.ev.append(dict(e="garbage"))
            else:
                self.frames.append(obj)
                e = self.on_frame(obj) if self.on_frame else dict(e="frame", obj=obj)
                if e:
                    self.ev.append(e)
            self.lock.notify_all()

    def write(self, data):
        """False if the process does not read any more."""
        view = memoryview(data)
        try:
            while view:
                n = os.write(self.fdin, view[:65536])
                view = view[n:]
            return True
        except (BrokenPipeError, OSError):
            self.broken_pipe = True
            return False

    def drained(self, timeout=2.0):
        """Waits till the process has read everything written."""
        buf = array.array("i", [0])
        end = time.time() + timeout
        while time.time() < end:
            fcntl.ioctl(self.fdin, termios.FIONREAD, buf)
            if buf[0] == 0:
                return True
            time.sleep(0.0005)
        return False

    def close_in(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass

    def wait(self, pred, timeout):
        """Waits for pred() evaluated under the lock."""
        with self.lock:
            return self.lock.wait_for(pred, timeout)

    def wait_exit(self, timeout):
        try:
            self.exit = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        self.t.join(timeout)
        return True

    def kill(self):
        self.go.set()
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.t.join(5)
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


def request(id, method, *params):
    return {"id": id, "method": method, "params": list(params)}


def hello_params(version, formats=None):
    return {"formats": formats or [{"format": "org-protocol", "version": version}], "version": version}


UNANSWERED = []


def calls(argv, reqs, timeout=20, **kw):
    """Sends requests one by one in one session; returns responses in order (None: no answer)
    and exit status. A program that never answers is not worth waiting for many times."""
    if len(UNANSWERED) > 3:
        timeout = min(timeout, 2)
    b = Backend(argv, **kw)
    res = []
    for i, (method, params) in enumerate(reqs):
        n = len(b.frames)
        ok = b.write(frame({"id": i + 1, "method": method, "params": params}))
        b.wait(lambda: len(b.frames) > n or b.eof, timeout)
        res.append(b.frames[n] if len(b.frames) > n else None)
        if res[-1] is None:
            if not b.eof:
                UNANSWERED.append(method)
                timeout = 1
            break
    while len(res) < len(reqs):
        res.append(None)
    b.close_in()
    ok = b.wait_exit(timeout)
    rc = b.exit if ok else "hang"
    extra = b.garbage is not None or len(b.frames) > len(reqs)
    b.kill()
    return res, rc, extra

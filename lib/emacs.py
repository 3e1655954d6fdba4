"""Sessions with captures and visits; runs of the Emacs client are scripted and recorded."""
import json, os, threading, time
from session import *


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


def run_kind(argv):
    """Which lisp form is evaluated; irrelevant for other runs."""
    last = argv[-1].decode("utf-8", "replace") if argv else ""
    if "ensure-frame" in last:
        return "ensure"
    if "org-protocol" in last and "features" in last:
        return "check"
    return "own"


FAULTS = {
    "ok": {}, "exit1": dict(exit=1, err="error\n"), "exit9": dict(exit=9, err="can't find socket\n"), "kill": dict(sig=9), "term": dict(sig=15), "exit255": dict(exit=255),
    "nil": dict(out="nil\n"), "empty": dict(out=""), "exit1out": dict(exit=1, out="org-protocol\n"), "fulltext": dict(out="*ERROR*: x org-protocol\n"), "big": dict(exit=2, err="e" * 300000),
}
BAD_CHECK = ["exit1", "exit9", "kill", "nil", "empty", "exit1out", "fulltext", "term", "big"]
BAD = ["exit1", "exit9", "kill", "exit1out", "exit255", "term", "big"]


def step_ok(kind, fault):
    return fault == "ok" if kind == "check" else fault in ("ok", "nil", "empty", "fulltext")


_fixed = {}


def fixed_args(ck):
    """Arguments that are always passed: taken from a single run without user arguments."""
    if "x" not in _fixed:
        d = os.path.join(ck.dir("emacs"), "cal")
        os.mkdir(d)
        p = os.path.join(d, "n.org")
        open(p, "w").close()
        s = Session(ck, [p], [], lambda *a: "ok")
        s.send("visit", path=p, line=1)
        s.wait_all(20)
        s.close()
        run = [e for e in s.raw if e["e"] == "run"]
        a = run[0]["args"] if run else []
        _fixed["x"] = a[:a.index(b"--eval")] if b"--eval" in a else [b"--quiet", b'--alternate-editor=sh -c "exit 9"']
    return _fixed["x"]


class Session:
    """policy(kind, argv, number) names the fault of a run."""
    def __init__(self, ck, files, user, policy, cmd=None, extra=(), gate=None):
        self.ck, self.files, self.user, self.policy, self.gate = ck, files, user, policy, gate
        self.d = os.path.join(ck.dir("emacs"), "s%d" % ck._uniq())
        os.mkdir(self.d)
        self.emacs = Emacs(self.d, self.on_run)
        self.start = cmd is None
        argv = [ck.backend(), "-log", "", "-emacsclient", cmd or ck.harness("fakeemacs")] + list(extra)
        for u in user:
            argv += ["-emacsarg", u]
        for f in files:
            argv += ["-org", f]
        self.raw = []
        self.lock = threading.Lock()
        self.reqs = []
        self.nrun = 0
        self.b = Backend(argv, env={"VERIF_EMACS_SOCK": self.emacs.path}, on_frame=self.on_frame, cwd=self.d)
        self.stdin = os.readlink("/proc/self/fd/%d" % self.b.fdin)

    def event(self, **kw):
        with self.lock:
            self.raw.append(kw)

    def on_run(self, run):
        kind = run_kind(run.argv)
        with self.lock:
            self.nrun += 1
            n = self.nrun
            self.raw.append(dict(e="run", i=n, args=run.argv, kind=kind, stdin=run.stdin == self.stdin))
        fault = self.policy(kind, run.argv, n)
        if self.gate:
            self.gate(kind, run.argv, n)
        a = dict(FAULTS[fault])
        if fault == "ok":
            a["out"] = "org-protocol\n" if kind == "check" else "t\n"
        self.event(e="end", i=n, ok=step_ok(kind, fault), fault=fault)
        run.answer(read=True if self.ck.prop == "C15" and n % 3 == 0 else False, **a)

    def on_frame(self, o):
        err, res = o.get("error"), o.get("result")
        if err is not None and res is None:
            out = "error"
        elif err is None and res is True:
            out = "true"
        elif err is None and isinstance(res, dict) and res.get("status") == "success" and res.get("preview") is False:
            out = "success"
        elif err is None and isinstance(res, dict) and res.get("status") == "preview" and res.get("preview") is True:
            out = "preview"
        else:
            out = "other"
        self.event(e="resp", i=o.get("id"), out=out, obj=json.dumps(o)[:300])
        return None

    def add(self, op, fmt="org-protocol", err=None, url="", path="", line=0, method=None):
        i = len(self.reqs) + 1
        nul = "\0" in (url + path) or len(url.encode("utf-8", "surrogatepass")) > 100000
        self.reqs.append(dict(id=i, op=op, fmt=fmt == "org-protocol", err=err is not None, url=hx(url) if len(url) < 5000 or True else "", path=hx(path),
                              line=str(line) if line > 0 else "0", pos=line > 0, nul=nul))
        if op == "visit":
            o = request(i, method or ["burl.visit", "linkremark.visit"][i % 2], {"file": path, "lineNo": line})
        else:
            o = request(i, method or ["capture", "burl.capture", "linkremark.capture"][i % 3],
                        {"format": fmt, "version": "0.2", "data": {"url": url, "title": "t", "body": {}}, "error": err})
        self.event(e="req", i=i, what=json.dumps(o)[:400])
        return frame(o)

    def send(self, op, **kw):
        return self.b.write(self.add(op, **kw))

    def answered(self):
        return sum(1 for e in self.raw if e["e"] == "resp")

    def wait_all(self, timeout=30):
        return self.b.wait(lambda: self.answered() >= len(self.reqs) or self.b.eof, timeout)

    def close(self):
        self.b.close_in()
        self.b.wait_exit(20)
        # ends of runs are recorded before responses
        self.event(e="eof", i=len(self.reqs) - self.answered())
        self.b.kill()
        self.emacs.close()

    def trace(self, fixed):
        ev = []
        for e in self.raw:
            i = e["i"] if isinstance(e.get("i"), int) else -1
            ev.append(dict(e=e["e"], i=i, argv=[hx(a) for a in e.get("args", [])], kind=e.get("kind", ""), ok=bool(e.get("ok", False)), out=e.get("out", ""), stdin=bool(e.get("stdin", False))))
        return dict(cfg=dict(user=[hx(u) for u in self.user], fixed=[a.hex() for a in fixed], files=[hx(f) for f in self.files], eval=hx("--eval"), nowait=hx("--no-wait"), start=self.start, reqs=self.reqs), ev=ev)

    def story(self, upto):
        out = []
        for e in self.raw[:upto + 2][-30:]:
            x = {k: v for k, v in e.items() if v not in (None, "")}
            if "args" in x:
                x["args"] = [a.decode("utf-8", "replace")[:200] for a in x["args"]]
            out.append(x)
        return out


def judge(ck, sessions, fixed, weak=False, what=""):
    traces = [s.trace(fixed) for s in sessions]
    for tr, why in ck.accept("EmacsTrace", traces, constants="CONSTANT Weak = %s\n" % ("TRUE" if weak else "FALSE"))[:6]:
        s = sessions[tr["id"] - 1]
        k = why["event_no"]
        ck.violation("%s: event %d is not possible" % (what, k), dict(event=s.story(k)[-3:], user_args=s.user, files=s.files, story=s.story(k)))

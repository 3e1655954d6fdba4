"""One request after another to a real backend, with Emacs starts counted."""
import json, os
from session import *


class Api:
    """cfg: dict(files, linkset); keeps a session and restarts it when it has died."""
    def __init__(self, ck, cfg, notes, extra=(), on_run=None):
        self.ck, self.cfg = ck, cfg
        self.d = os.path.join(ck.dir("api"), "a%d" % ck._uniq())
        os.mkdir(self.d)
        self.argvs = []
        self.emacs = Emacs(self.d, on_run or self.auto)
        self.argv = [ck.backend(), "-log", "", "-emacsclient", ck.harness("fakeemacs")] + list(extra)
        if cfg["files"]:
            for n in notes:
                self.argv += ["-org", n]
        if not cfg["linkset"]:
            self.argv += ["-disable-link-set"]
        self.b = None
        self.start()

    def auto(self, run):
        args = [a.decode("utf-8", "replace") for a in run.argv]
        self.argvs.append(args)
        run.answer(out="org-protocol\n" if any("memq 'org-protocol" in a for a in args) else "t\n")

    def start(self):
        self.b = Backend(self.argv, env={"VERIF_EMACS_SOCK": self.emacs.path})
        self.n = 0

    def call(self, method, params, timeout=10, omit=False):
        """Returns (reply or None, number of Emacs starts)."""
        if self.b.eof or self.b.p.poll() is not None:
            self.b.kill()
            self.start()
        before = self.emacs.runs
        n = len(self.b.frames)
        self.n += 1
        o = {"id": self.n, "method": method, "params": params}
        if omit:
            del o["params"]
        self.b.write(frame(o))
        self.b.wait(lambda: len(self.b.frames) > n or self.b.eof, timeout)
        got = self.b.frames[n] if len(self.b.frames) > n else None
        if got is not None and got.get("id") != self.n:
            got = None
        return got, self.emacs.runs - before

    def close(self):
        self.b.close_in()
        ok = self.b.wait_exit(10)
        rc = self.b.exit
        self.b.kill()
        self.emacs.close()
        return rc if ok else "hang"


def outcome(reply):
    if reply is None:
        return "none"
    err, res = reply.get("error"), reply.get("result")
    if err is not None and res is None:
        return "error"
    return "ok" if err is None else "both"

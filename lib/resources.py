"""Sessions of the real backend whose open files, children and goroutines are observed;
records are judged by specs/ResourcesTrace.tla."""
import json, os, random, re, signal, threading, time
from session import Backend, Emacs, frame
from scen import classify

FILES = "MmLlS"
CMDS = "VwkNDCF"


def kindof(q):
    return "files" if q in "MmL" else "cmd" if q in CMDS else "plain"


class World:
    def __init__(self, ck):
        self.ck = ck
        d = self.dir = ck.dir("res")
        self.org = os.path.join(d, "a.org")
        self.txt = os.path.join(d, "b.txt")
        self.third = os.path.join(d, "c.org")
        self.bad = os.path.join(d, "folder.org")
        self.missing = os.path.join(d, "missing.org")
        with open(self.org, "w") as f:
            f.write("* H\n[[https://n.example/one][d]]\n")
        with open(self.txt, "w") as f:
            f.write("see https://n.example/two\n")
        with open(self.third, "w") as f:
            f.write("* T\n  text\n")
        os.mkdir(self.bad)
        self.exe = ck.build("burl_backend")
        self.emacs = ck.harness("fakeemacs")

    def sources(self, name):
        a, b, c = ["-org", self.org], ["-txt", self.txt], ["-org", self.third]
        return {"good": a + b + c, "dir": a + b + ["-org", self.bad], "dirfirst": ["-txt", self.bad] + a,
                "missing": a + b + ["-txt", self.missing], "one": a, "empty": c, "none": [],
                "many": a + b + c + sum((["-org", self.third] for _ in range(9)), [])}[name]

    def nfiles(self, name):
        return max(1, len(self.sources(name)) // 2)


class Session:
    def __init__(self, w, seed, world="good", emacs=True, tight=0, log=None):
        self.w, self.world = w, world
        self.rng = random.Random(seed)
        self.d = os.path.join(w.dir, "s%d" % w.ck._uniq())
        os.mkdir(self.d)
        self.held, self.waiting = False, []
        self.lk = threading.Condition()
        self.open = {}
        self.n = 0
        self.stuck = False
        self.e = Emacs(self.d, self.on_run)
        self.log = log and os.path.join(self.d, "log")
        self.err = os.path.join(self.d, "err")
        cmd = {True: w.emacs, False: os.path.join(w.dir, "no-such-client"), "dir": w.dir}[emacs]
        argv = [w.exe, "-emacsclient", cmd] + (["-log", "-" if log == "-" else self.log] if log else []) + w.sources(world)
        if tight:
            argv = ["/bin/sh", "-c", "ulimit -n %d; exec \"$0\" \"$@\"" % tight] + argv
        self.errf = open(self.err, "wb")
        self.b = Backend(argv, env={"VERIF_EMACS_SOCK": self.e.path, "GOTRACEBACK": "all"}, stderr=self.errf, on_frame=self.on_frame)
        self.ev = self.b.ev
        self.base = None

    def on_frame(self, obj):
        i = obj.get("id")
        if i in self.open:
            q = self.open.pop(i)
            return dict(e="resp", i=i, out=classify(obj), q=q)
        return dict(e="resp", i=0, out="alien")

    def on_run(self, run):
        args = [a.decode("utf-8", "replace") for a in run.argv]
        self.b.log(e="client", fds=len(run.fds), what=run.fds[:5])
        how = dict(out="t\n")
        if "memq 'org-protocol" in "\n".join(args):
            how = dict(out="org-protocol\n")
        elif "+102" in args:
            how = dict(err="failed\n", exit=1)
        elif "+103" in args:
            how = dict(sig=9)
        elif "+104" in args:
            how = dict(err="emacsclient: can't find socket; have you started the server?\nemacsclient: To start the server in Emacs, type \"M-x server-start\".\n", exit=9)
        elif "+105" in args:
            how = dict(out="text " * 20000 + "\n", err="warning\n" * 9000, exit=1)
        with self.lk:
            if self.held:
                self.waiting.append((run, how))
                self.lk.notify_all()
                return
        run.answer(**how)

    def fails_first(self, args):
        return False

    def body(self, q):
        w, r = self.w, self.rng
        um, ls, vi, ca = "linkremark.urlMentions", "linkremark.linkSet", "linkremark.visit", "linkremark.capture"
        cap = dict(format="org-protocol", version="0.2", data=dict(url="org-protocol:/c", title="t", body={}), error=None)
        f = self.w.sources(self.world)[1] if self.world != "none" else "/none"
        return {
            "O": ("hello", [dict(formats=[dict(format="org-protocol", version="0.2")], version="1")]),
            "X": ("nothing", [{}]),
            "M": (um, [dict(variants=["https://n.example/one"])]),
            "m": (um, [dict(variants=["https://absent.example/"])]),
            "L": (ls, [dict(prefix=["https"])]),
            "l": (ls, [dict(prefix=["1 x"])]),
            "V": (vi, [dict(file=f, lineNo=1)]),
            "v": (vi, [dict(file="/other", lineNo=1)]),
            "w": (vi, [dict(file=f, lineNo=102)]),
            "k": (vi, [dict(file=f, lineNo=103)]),
            "N": (vi, [dict(file=f, lineNo=104)]),
            "D": (vi, [dict(file=f, lineNo=105)]),
            "C": (ca, [cap]),
            "F": (ca, [dict(cap, data=dict(url="org-protocol:/\0", title="t", body={}))]),
            "c": (ca, [dict(cap, format="other")]),
        }[q]

    def send(self, q):
        self.n += 1
        m, p = self.body(q)
        with self.b.lock:
            self.open[self.n] = q
            self.ev.append(dict(e="req", i=self.n, k=kindof(q) if self.world != "none" or q in "CF" else "plain", q=q))
        return self.b.write(frame(json.dumps(dict(id=self.n, method=m, params=p)).encode()))

    def blocked(self):
        """Every open request is one that waits for a held run."""
        with self.lk:
            return self.held and len(self.waiting) >= len([1 for q in self.open.values() if q in CMDS]) and \
                all(q in CMDS for q in self.open.values())

    def settle(self, timeout=15):
        """Waits till everything that can be answered is."""
        end = time.time() + timeout
        while time.time() < end:
            with self.b.lock:
                if self.b.eof or not self.open:
                    break
            if self.blocked():
                break
            time.sleep(0.002)
        else:
            self.stuck = True
            self.b.log(e="stuck")

    def scan(self):
        pid = self.b.p.pid
        file = other = kid = 0
        what = []
        try:
            names = os.listdir("/proc/%d/fd" % pid)
        except OSError:
            return None
        for n in names:
            try:
                link = os.readlink("/proc/%d/fd/%s" % (pid, n))
            except OSError:
                continue
            if n in "012" or link.startswith("anon_inode:[event") or link.startswith("/proc/") or link.startswith(("/sys/", "/usr/", "/etc/")) or link == self.log:
                continue
            if link.startswith(self.w.dir):
                file += 1
            else:
                other += 1
            what.append(link)
        for n in os.listdir("/proc"):
            if n.isdigit():
                try:
                    with open("/proc/%s/stat" % n, "rb") as f:
                        s = f.read().decode("latin-1")
                except OSError:
                    continue
                rest = s[s.rindex(")") + 2:].split()
                if int(rest[1]) == pid:
                    kid += 1
                    what.append("child " + rest[0])
        return file, kid, other, what

    def look(self):
        with self.b.lock:
            self.ev.append(dict(e="look"))
            qs = list(self.open.values())
        nf = sum(kindof(q) == "files" for q in qs)
        nc = sum(kindof(q) == "cmd" for q in qs)
        end = time.time() + 4
        while True:
            o = self.scan()
            if o is None:
                return
            # what has just been finished may take a moment
            if (o[0] <= nf * self.w.nfiles(self.world) and o[1] <= nc and o[2] <= 6 * nc) or time.time() > end:
                break
            time.sleep(0.02)
        if not (o[0] <= nf * self.w.nfiles(self.world) and o[1] <= nc and o[2] <= 6 * nc):
            # it will be rejected
            self.stuck = True
        self.b.log(e="obs", file=o[0], kid=o[1], pipe=o[2], what=o[3][:12])

    def go_on(self, all):
        with self.lk:
            if all:
                self.held = False
                q, self.waiting = self.waiting, []
            else:
                self.lk.wait_for(lambda: self.waiting, 0.3)
                q, self.waiting = self.waiting[:1], self.waiting[1:]
        for run, how in q:
            threading.Thread(target=run.answer, kwargs=how, daemon=True).start()

    def run(self, plan, each=False):
        try:
            for a in plan:
                if self.b.eof or self.stuck:
                    break
                if a == "h":
                    self.held = True
                elif a == "r":
                    self.go_on(False)
                elif a == "R":
                    self.go_on(True)
                elif a == "_":
                    # runs are held for long
                    time.sleep(6)
                elif a == "?":
                    self.look()
                elif a == ".":
                    self.settle()
                    self.look()
                else:
                    self.send(a)
                    if each:
                        self.settle()
            self.go_on(True)
            self.settle()
            self.look()
            if not self.b.eof and not self.stuck:
                self.dump()
        finally:
            self.b.kill()
            self.e.close()
            self.errf.close()
            try:
                with open(self.err, "rb") as f:
                    self.stderr = f.read().decode("utf-8", "replace")
            except OSError:
                self.stderr = ""
            for n in os.listdir(self.d):
                os.unlink(os.path.join(self.d, n))
            os.rmdir(self.d)

    def dump(self):
        """Counts goroutines: the program is asked for them by a signal, it is the end of the session."""
        time.sleep(0.05)
        try:
            self.b.p.send_signal(signal.SIGQUIT)
        except OSError:
            return
        self.b.wait_exit(10)
        with open(self.err, "rb") as f:
            text = f.read().decode("utf-8", "replace")
        gs = [g for g in re.split(r"\n\n+", text) if g.startswith("goroutine ") and "created by runtime." not in g]
        if gs:
            self.stacks = gs
            self.b.log(e="dump", task=len(gs))

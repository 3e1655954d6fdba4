"""Installation of wrappers and manifests in a scratch directory under fsguard."""
import binascii, concurrent.futures, json, os, random, shutil, socket, stat, subprocess
import vlib

APP = "io.github.maxnikulin.burl"
# Targets of one command: option, file, wanted permissions.
KINDS = {
    "wrapper": [("-wrapper", "wrap", 0o755)],
    "firefox": [("-manifest-firefox", APP + ".json", 0o644)],
    "chrome": [("-manifest-chrome", "x.json", 0o644)],
    "both": [("-wrapper", "wrap", 0o755), ("-manifest-firefox", "n.json", 0o644)],
    "all": [("-wrapper", "burl", 0o755), ("-manifest-chrome", "c.n.json", 0o644)],
}


def unhex(s):
    return binascii.unhexlify(s)


class Guard:
    """One run of a command under fsguard."""

    def __init__(self, ck, d, argv, spec="-", umask=None, user=None, cwd=None, env=None):
        self.log = os.path.join(ck.dir("guardlog"), "g%d" % ck._uniq())
        os.chmod(ck.dir("guardlog"), 0o1777)
        kw = {}
        if user is not None:
            kw.update(user=user, group=user, extra_groups=[])
        if umask is not None:
            kw["umask"] = umask
        e = dict(os.environ, TMPDIR=d, HOME=ck.scratch)
        e.update(env or {})
        p = subprocess.run([ck.native("fsguard"), d, self.log, spec, "--"] + argv, cwd=cwd or ck.scratch, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **kw)
        if p.returncode:
            raise vlib.MachineryError("fsguard failed: %d %r" % (p.returncode, p.stderr[-500:]))
        self.out, self.err = p.stdout, p.stderr
        self.ops, self.end = [], None
        with open(self.log) as f:
            for line in f:
                r = json.loads(line)
                r["dir"] = {os.fsdecode(unhex(x["name"])): x for x in r["dir"]}
                if r["no"]:
                    r["file"] = os.fsdecode(unhex(r["file"]))
                    self.ops.append(r)
                else:
                    self.end = r
        os.unlink(self.log)
        if not self.end:
            raise vlib.MachineryError("fsguard: incomplete log")
        self.exit, self.signal = self.end["exit"], self.end["signal"]


ABSENT = dict(k="absent", c="", m=0, id=0)


class States:
    """Maps directory listings to file states of the specification."""

    def __init__(self, wanted):
        self.wanted = wanted            # name -> set of acceptable contents
        self.ids, self.contents = {}, {}

    def of(self, listing, name, depth=0, wanted=None):
        x = listing.get(name)
        wanted = wanted or self.wanted[name]
        if x is None:
            return dict(ABSENT)
        i = self.ids.setdefault(x["ino"], len(self.ids) + 1)
        if stat.S_ISLNK(x["mode"]):
            if depth > 3:
                return dict(k="other", c="", m=0, id=i)
            dest = os.fsdecode(unhex(x["data"]))
            if "/" in dest:
                return dict(k="other", c="", m=0, id=i)
            s = self.of(listing, dest, depth + 1, wanted)
            # The link and its referent make the identity together.
            s["id"] = self.ids.setdefault((x["ino"], s["id"]), len(self.ids) + 1)
            return s
        if not stat.S_ISREG(x["mode"]):
            return dict(k="other", c="", m=x["mode"] & 0o777, id=i)
        data = unhex(x["data"])
        c = "new" if data in wanted else "c%d" % self.contents.setdefault(data, len(self.contents) + 1)
        return dict(k="file", c=c, m=x["mode"] & 0o777, id=i)


def case(g, targets, wanted, before, force, fault="", readable=True):
    """Record of one guarded run; before: listing before the run."""
    st = States(wanted)
    names = [t[1] for t in targets]
    files = [dict(old=st.of(before, n), w=t[2]) for n, t in zip(names, targets)]
    moments = [[st.of(o["dir"], n) for n in names] for o in g.ops if o["cls"] not in ("read", "open")]
    # Only changes are of interest.
    short = [m for k, m in enumerate(moments) if k == 0 or m != moments[k - 1]]
    end = [st.of(g.end["dir"], n) for n in names]
    if fault and fault != "dir" and not any(o["act"] for o in g.ops):
        fault = ""
    if fault == "kill" and not any(o["act"] == "kill" for o in g.ops):
        fault = "other"
    tmps = len(set(g.end["dir"]) - set(before) - set(names))
    return dict(files=files, force=force, moments=short, end=end, ok=g.exit == 0, killed=fault == "kill",
                crash=g.signal != 0 and fault != "kill", fault="" if fault == "kill" else fault, tmps=tmps, readable=readable)


def listing(d):
    r = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        s = os.lstat(p)
        data = b""
        if stat.S_ISREG(s.st_mode):
            with open(p, "rb") as f:
                data = f.read()
        elif stat.S_ISLNK(s.st_mode):
            data = os.fsencode(os.readlink(p))
        r[n] = dict(name="", mode=s.st_mode, ino=s.st_ino, data=binascii.hexlify(data).decode())
    return r


def olds(w, r):
    """Names of previous contents of a file with wanted content w."""
    res = {"same": w, "empty": b"", "other": b"#!/bin/sh\necho other\n", "noshebang": b"echo precious\n", "shebang": b"#!/",
           "cut": w[:-1], "half": w[:len(w) // 2], "tail": w + b"x", "tailnl": w + b"\n", "nul": w + b"\0", "nuls": w + b"\0" * 300, "cutnul": w[:-1] + b"\0",
           "long": w + b"#" * 4096, "page": (w + b"\n" * 4096)[:4096], "page-": (b"#!/bin/sh\n" + b"\n" * 4096)[:4095], "page+": (b"#!/bin/sh\n" + b"\n" * 4096)[:4097],
           "page0": (b"#!/bin/sh\n" + b"\n" * 4096)[:4096], "w4096": w + b"\n" * 4096, "w4095": w + b"\n" * 4095, "first": b"X" + w[1:], "last": w[:-1] + b"X", "json": b"{\"name\":1}\n",
           "crlf": w.replace(b"\n", b"\r\n"), "upper": w.upper(), "big": b"#!/bin/sh\n" + b"x" * 70000, "space": b"\n" + w, "4096": w[:4096] if len(w) > 4096 else w[:-2]}
    k = r.randrange(len(w))
    res["flip"] = w[:k] + bytes([w[k] ^ 1]) + w[k + 1:]
    return res


class Setup:
    """Target directory with everything needed to run one command repeatedly."""

    def __init__(self, ck, name, kind, pad=0, extra=(), exe=None):
        self.ck, self.kind = ck, kind
        self.targets = KINDS[kind]
        self.d = ck.dir("i-" + name)
        self.argv = [exe or ck.build("burl_backend")]
        for opt, f, _ in self.targets:
            self.argv += [opt, os.path.join(self.d, f)]
        self.argv += list(extra)
        if self.targets[0][0] == "-wrapper":
            self.pad(pad)
        self.wanted = {}
        g = Guard(ck, self.d, self.argv)
        if g.exit:
            raise Refused(self.argv, g.err)
        for _, f, _ in self.targets:
            try:
                with open(os.path.join(self.d, f), "rb") as fp:
                    self.wanted[f] = {fp.read()}
            except OSError:
                raise Refused(self.argv, b"no file " + f.encode())
        self.clean()

    def pad(self, n):
        """Arguments that make the wrapper n bytes long, if possible."""
        if not n:
            return
        argv = self.argv + ["-emacsarg", "x"]
        g = Guard(self.ck, self.d, argv)
        with open(os.path.join(self.d, self.targets[0][1]), "rb") as f:
            have = len(f.read())
        self.clean()
        if n > have:
            argv[-1] += "x" * (n - have)
        self.argv = argv

    def clean(self):
        for n in os.listdir(self.d):
            p = os.path.join(self.d, n)
            if os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o700)
                for x in os.listdir(p):
                    os.unlink(os.path.join(p, x))
                os.rmdir(p)
            else:
                os.unlink(p)

    def content(self, f):
        return next(iter(self.wanted[f]))

    def put(self, f, how, mode):
        """Previous state of target f: None, a content, or a special kind."""
        p = os.path.join(self.d, f)
        if how is None:
            return
        if how == "dir":
            os.mkdir(p)
        elif how == "socket":
            s = socket.socket(socket.AF_UNIX)
            s.bind(p)
            s.close()
        elif isinstance(how, tuple) and how[0] == "link":
            os.symlink(how[1], p)
        elif isinstance(how, tuple) and how[0] == "locked":
            # what the link leads to exists, but can not be examined
            ld = os.path.join(self.d, "locked")
            os.mkdir(ld)
            with open(os.path.join(ld, "ref"), "wb") as fp:
                fp.write(how[1])
            os.chmod(ld, mode)
            os.symlink("locked/ref", p)
        elif isinstance(how, tuple):
            ref = os.path.join(self.d, "ref")
            with open(ref, "wb") as fp:
                fp.write(how[1])
            os.chmod(ref, mode)
            if how[0] == "symlink":
                os.symlink("ref", p)
            else:
                os.link(ref, p)
        else:
            with open(p, "wb") as fp:
                fp.write(how)
            os.chmod(p, mode)

    def run(self, prev, force, spec="-", fault="", umask=None, user=None, readable=True, dmode=0o755):
        """prev: {file: (how, mode)}."""
        self.clean()
        for f, (how, mode) in prev.items():
            self.put(f, how, mode)
        if user is not None:
            os.chown(self.d, user, user)
            for n in os.listdir(self.d):
                os.lchown(os.path.join(self.d, n), user, user)
        os.chmod(self.d, dmode)
        before = listing(self.d)
        g = Guard(self.ck, self.d, self.argv + (["-force"] if force else []), spec, umask=umask, user=user)
        c = case(g, self.targets, self.wanted, before, force, fault, readable)
        if user is not None:
            # the listing of the guard can not read everything
            st = States(self.wanted)
            after = listing(self.d)
            c["files"] = [dict(old=st.of(before, t[1]), w=t[2]) for t in self.targets]
            c["end"] = [st.of(after, t[1]) for t in self.targets]
            c["moments"] = []
            os.chown(self.d, 0, 0)
        os.chmod(self.d, 0o755)
        c["what"] = dict(argv=self.argv[1:4], kind=self.kind, force=force, spec=spec, umask=umask, user=user,
                         prev={f: (p[0] if isinstance(p[0], (str, type(None))) else repr(p[0])[:60], oct(p[1])) for f, p in prev.items()},
                         exit=g.exit, stderr=g.err.decode(errors="replace")[-300:], ops=[o["op"] + " " + o["file"] for o in g.ops][:20])
        return c, g


class Refused(Exception):
    pass


def verdict(ck, cases, atomic=False):
    """Sends the cases to TLC and reports rejected ones."""
    what = [c.pop("what") for c in cases]
    for c, w in zip(cases, what):
        c["n"] = 0
    for c, why in ck.judge("InstallJudge", cases, shards=6, constants="CONSTANT OnlyAtomic = %s" % ("TRUE" if atomic else "FALSE")):
        ck.violation("installation: %s" % why["what"], dict(scenario=what[c["id"] - 1], files=c["files"], force=c["force"], end=c["end"], moments=c["moments"][:6], tmps=c["tmps"]))

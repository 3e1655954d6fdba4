"""Wrappers: installation, start with a recorder in place of the backend, comparison by FlagsJudge."""
import binascii, json, os, subprocess
import vlib

CONST = 'CONSTANTS\n DefSchemes <- DS\n DefEmacsArgs <- DE\n'


def enc(b):
    """Bytes as a string of printable ASCII characters."""
    if isinstance(b, str):
        b = os.fsencode(b)
    return "".join(chr(c) if 32 < c < 127 and c not in b'%"\\' else "%%%02X" % c for c in b)


class Wrapper:
    def __init__(self, ck, name, exedir=b"bin", exename=b"burl_backend", wname=b"wrapper"):
        self.ck = ck
        self.d = os.fsencode(ck.dir(name))
        self.exe = os.path.join(self.d, exedir, exename)
        os.makedirs(os.path.dirname(self.exe), exist_ok=True)
        self.w = os.path.join(self.d, wname)

    def backend(self):
        if os.path.lexists(self.exe):
            os.unlink(self.exe)
        os.link(self.ck.build("burl_backend"), self.exe)

    def recorder(self):
        tmp = os.path.join(self.d, b"rec.tmp")
        # A copy made here could be inherited by a process just forked and then be "busy".
        os.link(self.ck.harness("argvrec"), tmp)
        os.rename(tmp, self.exe)

    def install(self, given, cwd, extra=(), stdout=False):
        """Creates the wrapper; given: configuration options."""
        self.backend()
        if os.path.lexists(self.w):
            os.unlink(self.w)
        argv = [self.exe] + list(extra) + [b"-wrapper", b"-" if stdout else self.w] + list(given)
        p = vlib.run(argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        self.err = p.stderr
        if stdout and p.returncode == 0:
            subprocess.run(["/bin/sh", "-c", "cat > \"$1\" && chmod 755 \"$1\"", "sh", self.w], input=p.stdout)
        return p.returncode == 0

    def start(self, cwd="/", env=None, argv=None):
        """Arguments of the starts recorded."""
        out = os.path.join(self.d, b"argv.out")
        if os.path.exists(out):
            os.unlink(out)
        e = dict(os.environb)
        e.update(env or {})
        e[b"VERIF_ARGV_OUT"] = out
        p = vlib.run(argv or [self.w], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        self.out, self.err = p.stdout, p.stderr
        res = []
        if os.path.exists(out):
            with open(out) as f:
                res = [json.loads(x) for x in f if x.strip()]
        return res


def case(w, given, cwd, installed, runs, bare=False):
    """Record for FlagsJudge."""
    given = [os.fsencode(g) for g in given]
    rec = [binascii.unhexlify(a) for a in runs[0]["argv"]] if runs else []
    names = {}
    cwd = os.fsencode(cwd)
    longs = sorted({a for g in given for a in [g.split(b"=", 1)[-1] if g[:1] == b"-" else g] if len(a) > 3000}, key=len, reverse=True)

    def e(b):
        for n, l in enumerate(longs):
            b = b.replace(l, b"<long%d>" % n)
        return enc(b)
    for a in given + rec:
        for b in {a, a.split(b"=", 1)[-1]}:
            if b and len(b) < 3000 and b"\0" not in b:
                try:
                    names[e(b)] = enc(os.path.realpath(os.path.join(cwd, b)))
                except OSError:
                    pass
    return dict(given=[e(x) for x in given], rec=[e(x) for x in rec], names=sorted(names.items()), runs=len(runs),
                exe=all(binascii.unhexlify(x["exe"]) == w.exe for x in runs), installed=installed, bare=bare, through=True)


def judge(ck, cases, what=None):
    info = [c.pop("what", None) for c in cases]
    for c, why in ck.judge("FlagsJudge", cases, shards=6, constants="CONSTANTS\n DefSchemes <- DS\n DefEmacsArgs <- DE\n"):
        ck.violation("wrapper: %s" % why["what"], dict(given=[x[:300] for x in c["given"]][:60], recorded=[x[:300] for x in c["rec"]][:60], runs=c["runs"], installed=c["installed"], info=info[c["id"] - 1]))

"""C19: the generated wrapper starts the backend with the same configuration."""
import concurrent.futures, json, os, random, struct, subprocess
from shell import *

ENVS = [{}, {b"LC_ALL": b"C"}, {b"LC_ALL": b"C.UTF-8"}, {b"LC_ALL": b"POSIX", b"LANG": b"x"}, {b"LC_ALL": b"nonsense"}, {b"IFS": b"x/= -"}, {b"PATH": b""}, {b"PATH": b"/nonexistent"},
        {b"BURL_BACKEND": b"/bin/false"}, {b"ENV": b"/dev/null", b"CDPATH": b"/"}, {b"PS4": b"$(echo x)", b"PWD": b"/nonexistent"}, {b"POSIXLY_CORRECT": b"1"}]
NASTY = [b"'", b"''", b"'\\''", b"\"", b"\\", b"\\'", b"$HOME", b"$(touch inj)", b"`touch inj`", b"a\nb", b"\n", b"\nx", b"x\n", b"x\n\n", b" ", b"  a  b ", b"\t", b"\r", b"\r\n", b"-", b"--", b"-x", b"--log", b"-h", b"--version", b"=", b"=x", b"a=b",
         b"*", b"?", b"~", b"~root", b"!x", b"#x", b"&", b";", b"|", b"<x", b">inj", b"(", b"{a,b}", b"%s", b"%d%%", b"\\n", b"\\x41", b"\\0", b"$'x'", b"$1", b"${x}", b"\"$x\"", b"a\\", b"'a", b"a'", b"'\n'", "\u0436".encode(), "\u65e5\u672c\u8a9e".encode(), b"\xff\xfe", b"\x80", b"\xc3", b"a\x01b", b"\x7f", b"\x1b[31m",
         "\u00a0".encode(), "\u2028".encode(), b"[a-z]", b"x" * 300, b"true", b"0", "\U0001f600'\u0301".encode(), b"emacsclient", b"\x0b\x0c", b"\xe2\x80'\x99", b"\x5c\x5c'", b"'\"'\"'"]


HELLO = b"".join(struct.pack("=I", len(b)) + b for b in (json.dumps(dict(id=k, method=m, params=[p])).encode() for k, m, p in (
    (1, "hello", dict(formats=[dict(format="org-protocol", version="0.3")], version="0.3")), (2, "burl.linkSet", dict(prefix=["https:"])),
    (3, "burl.urlMentions", dict(variants=["https://a.b/"])), (4, "nothing", {}))))


def frames(b):
    """Frames in any order."""
    res = []
    while len(b) >= 4 and len(b) >= 4 + struct.unpack("=I", b[:4])[0]:
        n = 4 + struct.unpack("=I", b[:4])[0]
        res.append(b[4:n])
        b = b[n:]
    return sorted(res), b


def value(r):
    x = r.random()
    if x < 0.5:
        return r.choice(NASTY)
    if x < 0.8:
        return b"".join(r.choice(NASTY) for _ in range(r.choice([2, 2, 3, 5])))
    return bytes(r.choice(range(1, 256)) for _ in range(r.choice([1, 2, 5, 20, 100])))


def fname(r, k):
    v = value(r).replace(b"/", b"_")[:100]
    return v + b"%d" % k + r.choice([b"", b".org", b".txt", b".ORG", b"org", b".org "])


def opt(r, name, v):
    dash = r.choice([b"-", b"--"])
    return [dash + name + b"=" + v] if r.random() < 0.5 else [dash + name, v]


def config(ck, r, d, k):
    """A random command line; files are created in d."""
    given = []
    nfile = [0]

    def note():
        nfile[0] += 1
        n = fname(r, nfile[0])
        sub = r.choice([b"", b"", b"sub dir", b"it's"])
        if sub:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        p = os.path.join(sub, n)
        full = os.path.join(d, p)
        if not os.path.exists(full):
            if r.random() < 0.15:
                t = os.path.join(d, b"target%d.org" % nfile[0])
                open(t, "wb").close()
                os.symlink(t, full)
            else:
                open(full, "wb").close()
        return r.choice([p, full, b"./" + p, os.path.join(d, b".", p), os.path.join(b"..", os.path.basename(d), p)])
    parts = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        parts.append(("emacsarg", opt(r, b"emacsarg", value(r))))
    for _ in range(r.choice([0, 0, 1, 2])):
        parts.append(("scheme", opt(r, b"scheme", value(r))))
    if r.random() < 0.3:
        parts.append(("emacsclient", opt(r, b"emacsclient", r.choice([value(r), b"", b"emacsclient", b"/usr/bin/emacs client"]))))
    if r.random() < 0.5:
        parts.append(("log", opt(r, b"log", r.choice([b"", b"", b"-", b"l.log", b"./x'y/../l.log", fname(r, 0), os.path.join(d, b"abs.log"), b"../" + os.path.basename(d) + b"/z.log"]))))
    if r.random() < 0.4:
        parts.append(("disable", [r.choice([b"-disable-link-set", b"--disable-link-set", b"-disable-link-set=true", b"-disable-link-set=1", b"-disable-link-set=false", b"-disable-link-set=T", b"--disable-link-set=0"])]))
    bare = r.random() < 0.2
    for _ in range(r.choice([0, 0, 1, 2, 4]) if not bare else 0):
        t = r.choice([b"org", b"txt"])
        n = note()
        parts.append(("src", opt(r, t, n)))
        if r.random() < 0.2:
            # the same file once more
            parts.append(("src", opt(r, r.choice([b"org", b"txt", t]), n)))
    r.shuffle(parts)
    pos = [note() for _ in range(r.choice([0, 0, 0, 1, 3]) if not bare else 0)]
    if pos and r.random() < 0.2:
        pos.append(pos[-1])
    for name in ("emacsarg", "scheme"):
        if r.random() < 0.3:
            k = min([n for n, p in enumerate(parts) if p[0] == name] + [len(parts)])
            parts.insert(k, (name, opt(r, name.encode(), b"")))
    given = [x for _, p in parts for x in p]
    if pos:
        if r.random() < 0.5 or pos[0].startswith(b"-"):
            given.append(b"--")
        given += pos
    return given


def one(ck, k, n):
    r = random.Random("c19/%d/%d" % (ck.seed, k))
    res = []
    cwd = os.fsencode(ck.dir("w%d" % k))
    for j in range(n):
        w = Wrapper(ck, "w%d/e%d" % (k, j), r.choice([b"bin", value(r).replace(b"/", b"_")[:80] + b"_d"]), r.choice([b"burl_backend", value(r).replace(b"/", b"_")[:80] + b"x"]), r.choice([b"wrapper", b"w '$x", b"-w"]))
        d = os.path.join(cwd, b"f%d" % j)
        os.mkdir(d)
        os.mkdir(os.path.join(d, b"x'y"))
        given = config(ck, r, d, k) if j else []
        ok = w.install(given, d, r.choice([(), (b"-force",), (b"-backend", b"n.x"), (b"-chrome-extension", b"abc")]) if j else (), stdout=r.random() < 0.2)
        inst_err = w.err
        through = True
        if ok and j % 2 == 0:
            # the real program answers the same with and without the wrapper
            direct = vlib.run([w.exe] + given, cwd=d, input=HELLO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            via = vlib.run([w.w, b"/path/to/manifest.json", b"addon@id"], cwd="/", input=HELLO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            through = frames(direct.stdout) == frames(via.stdout) and direct.returncode == via.returncode
        w.recorder()
        for _ in range(2):
            env = r.choice(ENVS)
            runs = w.start(r.choice([b"/", d, w.d, os.fsencode(ck.scratch)]), env, r.choice([None, None, [b"/bin/sh", b"-eu", w.w], [w.w, b"extra"]])) if ok else []
            c = case(w, given, d, ok, runs, bare=not given)
            c["through"] = through
            c["what"] = dict(env=repr(env), exe=repr(w.exe), stderr=repr(w.err[-300:] + inst_err[-200:]))
            res.append(c)
    return res


def packed(ck, strings, k):
    """Many values of one option in a wrapper."""
    w = Wrapper(ck, "p%d" % k)
    given = [b"-emacsarg=" + s if n % 2 else b"--emacsarg=" + s for n, s in enumerate(strings) if s]
    ok = w.install(given, w.d)
    w.recorder()
    runs = w.start() if ok else []
    c = case(w, given, w.d, ok, runs)
    if len(c["given"]) > 5 and c["rec"][2:] == c["given"] and c["rec"][:2] == ["--log", "-"]:
        pass
    c["what"] = dict(packed=len(strings))
    return c


def check(ck):
    ck.design("ShellDesign", "ShellDesign.cfg" if not ck.thorough else "ShellDesignBig.cfg")
    ck.design("FlagsDesign", "FlagsDesign.cfg" if not ck.thorough else "FlagsDesignBig.cfg")
    ck.build("burl_backend")
    ck.harness("argvrec")
    gen = ck.tlc("ShellDesign", 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Alphabet = {"\'", "\\"", "\\\\", "$", " ", "\\n", "x"}\n MaxLen = %d\n Mutant = "none"\n Gen = TRUE\n' % ck.n(3, 4))
    strings = ["".join(p["v"]).encode() for p in gen.printed]
    strings += [bytes([c]) for c in range(1, 256)] + [b"a" + bytes([c]) + b"b" for c in range(1, 256)] + NASTY
    r = ck.rng
    strings += [value(r) for _ in range(ck.n(300, 5000))]
    lots = [strings[a:a + 40] for a in range(0, len(strings), 40)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(lambda a: packed(ck, a[1], a[0]), enumerate(lots)))
        cases.append(packed(ck, [b"y" * 100000, b"'" * 20000, b"z" * 120000], 10**6))
        cases += [c for cs in ex.map(lambda k: one(ck, k, ck.n(8, 12)), range(ck.n(16, 150))) for c in cs]
    ck.details["values"] = len(strings)
    ck.details["wrappers_started"] = len(cases)
    ck.sample(dict(given=cases[-1]["given"], rec=cases[-1]["rec"]))
    judge(ck, cases)

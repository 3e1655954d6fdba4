"""C33: a command line of the backend does one thing."""
import concurrent.futures, json, os, random, shutil, struct, subprocess
from session import frame

HELLO = frame(json.dumps(dict(id=7, method="hello", params=[dict(formats=[dict(format="org-protocol", version="0.2")], version="1")])).encode())
SPELL = {"help": ["-h", "--h", "-help", "--help", "-help=true", "--h=1"], "ver": ["-v", "-V", "-version", "--version", "--V", "-version=T"]}
FAIL = [["-no-such"], ["--wrappers", "x"], ["-"*3 + "log"], ["-=x"], ["-force=maybe"], ["-help=perhaps"], ["-disable-link-set=2"]]
VALUE = [["-log"], ["--wrapper"], ["-org"], ["-manifest-chrome"], ["-scheme"], ["-backend"]]


def shape(out):
    if not out:
        return "none"
    if out.startswith(b"Usage:") and b"-manifest-firefox" in out:
        return "help"
    if out.startswith(b"burl_backend ") and b"GPL" in out:
        return "version"
    if out.startswith(b"#!/bin/sh") and out.endswith(b"\n"):
        return "script"
    try:
        if out[:1] == b"{" and set(json.loads(out)) >= {"name", "path", "type"}:
            return "manifest"
    except ValueError:
        pass
    if len(out) > 4 and struct.unpack("=I", out[:4])[0] == len(out) - 4:
        try:
            if json.loads(out[4:])["id"] == 7:
                return "frame"
        except (ValueError, KeyError, TypeError):
            pass
    return "other"


def listing(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for n in files + dirs:
            p = os.path.join(root, n)
            with open(p, "rb") if n in files else open(os.devnull, "rb") as f:
                res[os.path.relpath(p, d)] = f.read()
    return res


def one(ck, exe, c, seed):
    r = random.Random(seed)
    d = ck.dir("start/%d" % ck._uniq())
    for n in ("w", "ff", "ch"):
        os.mkdir(os.path.join(d, n))
    with open(os.path.join(d, "n.org"), "w") as f:
        f.write("[[https://n.example/x][d]]\n")
    with open(os.path.join(d, "w", "old"), "w") as f:
        f.write("old\n")
    opts = []
    two = lambda name, v: opts.append(r.choice([["-" + name, v], ["--" + name + "=" + v], ["-" + name + "=" + v]]))
    rel = r.random() < 0.4
    at = lambda *p: os.path.join(*p) if rel else os.path.join(d, *p)
    for f in ("help", "ver"):
        if c[f] != "none":
            opts.append([r.choice(SPELL[f])])
    if c["wr"] != "none":
        two("wrapper", "-" if c["wr"] == "-" else at("w", c["wr"]))
    if c["ff"] != "none":
        two("manifest-firefox", {"-": "-", "path": at("ff", "app.json"), "dir": at("ff"), "ext": at("ff", "app.txt")}[c["ff"]])
    if c["ch"] != "none":
        two("manifest-chrome", {"-": "-", "path": at("ch", "app.json"), "dir": at("ch")}[c["ch"]])
    if c["force"] != "none":
        opts.append([r.choice(["-force", "--force", "-force=true"])])
    if c["log"] != "none":
        two("log", {"file": at("log"), "bad": r.choice([at("w"), at("missing", "log"), at("n.org", "log")]), "empty": "", "-": "-"}[c["log"]])
    if c["notes"] in ("org", "missing"):
        for _ in range(r.choice([1] * 8 + [2, 100, 300])):
            two(r.choice(["org", "txt"]), at("n.org") if c["notes"] == "org" else at("nothing.org"))
    if c["scheme"] != "none":
        two("scheme", r.choice(["ftp", "tel:", "x-y"]) if c["scheme"] == "good" else r.choice(["(", "a)", "[", "*x", "a{2,1}"]))
    bad = []
    if c["bad"] == "unknown":
        opts.append(r.choice(FAIL))
    elif c["bad"] == "value":
        bad = r.choice(VALUE)
    r.shuffle(opts)
    argv = [exe] + sum(opts, []) + bad
    if c["notes"] == "arg":
        # what follows the first argument is not an option
        argv = argv if bad else argv + [at("n.org")]
    before = listing(d)
    try:
        p = subprocess.run(argv, input=HELLO, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env={"PATH": "/usr/bin:/bin", "HOME": d})
        code, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        code, out, err = -99, e.stdout or b"", e.stderr or b""
    after = listing(d)
    diff = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
    targets = {"wr": os.path.join("w", c["wr"]), "log": "log", "ff": {"dir": "ff/*"}.get(c["ff"], "ff/app.json"), "ch": {"dir": "ch/*"}.get(c["ch"], "ch/app.json")}
    made = set()
    for n in diff:
        made |= {k for k, v in targets.items() if n == v or (v.endswith("*") and os.path.dirname(n) == v[:2] and n.endswith(".json"))} or {"other"}
    shutil.rmtree(d)
    return dict(c=c, o=dict(code=code, out=shape(out), err=bool(err.strip()), made=sorted(made))), argv[1:], out[:200], err[:300]


def check(ck):
    ck.design("Startup", "Startup.cfg" if not ck.thorough else "StartupBig.cfg")
    exe = ck.build("burl_backend")
    g = ck.tlc("StartupGen", "INIT Init\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Mutant = \"none\"\n MaxSet = %d\n" % ck.n(3, 5))
    lines = [p["c"] for p in g.printed]
    small = [c for c in lines if sum(v != "none" for v in c.values()) <= ck.n(2, 3)]
    rest = [c for c in lines if sum(v != "none" for v in c.values()) > ck.n(2, 3)]
    ck.rng.shuffle(rest)
    # larger ones without what makes them end at once
    F = {f: sorted({c[f] for c in lines}) for f in lines[0]}
    big = []
    for _ in range(ck.n(400, 4000)):
        c = {f: ck.rng.choice(F[f] + ["none"] * (2 if f not in ("bad", "help", "ver") else 25)) for f in F}
        big.append(c)
    lines = small + rest[:ck.n(700, 9000)] + big
    ck.details["command_lines"] = len(lines)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: one(ck, exe, lines[k], "c33/%d/%d" % (ck.seed, k)), range(len(lines))))
    ck.details["outcomes"] = {x: sum(r[0]["o"]["out"] == x for r in res) for x in sorted({r[0]["o"]["out"] for r in res})}
    ck.sample([dict(argv=r[1][:6], outcome=r[0]["o"]) for r in res[60:64]])
    for k, why in ck.judge("StartupJudge", [r[0] for r in res], cfg="INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mutant = \"none\"\n MaxSet = 1\n"):
        case, argv, out, err = res[k["id"] - 1]
        ck.violation("burl_backend %s: %s" % (" ".join(argv)[:300], json.dumps(case["o"])),
                     dict(argv=argv, outcome=case["o"], line=case["c"], stdout=out.decode("latin-1"), stderr=err.decode("latin-1")))

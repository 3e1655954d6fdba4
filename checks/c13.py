"""C13: only configured note files can be opened in Emacs."""
import concurrent.futures, random
from emacs import *


def paths(r, files, d):
    """Requested paths around the configured ones."""
    out = list(files)
    for f in files:
        out += [f + "/", f + " ", " " + f, f[:-1], f + "x", f.upper() if f.upper() != f else f + "~", "./" + f, f.replace("/", "//"), os.path.dirname(f) or ".", f + "\0", f + "\n", "+12 " + f, f + ":12", "file://" + f,
                os.path.join(os.path.dirname(f), "..", os.path.basename(os.path.dirname(f) or "x"), os.path.basename(f)), os.path.relpath(f if f.startswith("/") else os.path.join(d, f), d), f.replace("n", "\u006e\u0301"), os.path.basename(f), "~/" + os.path.basename(f),
                os.path.abspath(os.path.join(d, f)), f.swapcase()]
    out += ["", "-", "--eval", "-e", "(kill-emacs)", "+1", "/etc/passwd", "/", ".", "*", "n?.org", os.path.join(d, "other.org"), os.path.join(d, "*.org"), "\u0436.org", "org-protocol:/x", "null"]
    return out


def aliases(r, files, d):
    """Other names of configured files that exist."""
    out = []
    for k, f in enumerate(files):
        p = os.path.join(d, f)
        try:
            with open(p, "a") as fp:
                fp.write("* note\n")
            for n, make in (("sym%d.org" % k, os.symlink), ("hard%d.org" % k, os.link)):
                make(os.path.abspath(p), os.path.join(d, n))
                out += [n, os.path.join(d, n)]
            os.symlink(os.path.dirname(os.path.abspath(p)), os.path.join(d, "dir%d" % k))
            out.append(os.path.join(d, "dir%d" % k, os.path.basename(p)))
        except (OSError, ValueError):
            continue
    return out


def slow(ck, k):
    """Clients of Emacs that take their time; visits and captures in between."""
    import time
    r = random.Random("c13s/%d/%d" % (ck.seed, k))
    f = os.path.join(ck.dir("slow%d" % k), "n.org")
    hold = [11, 6.5, 4, 11][k % 4]
    which = ["own", "check", "ensure", "own"][k // 2 % 4]
    fault = ["ok", "exit1"][k % 2]
    first = []

    def policy(kind, argv, n):
        if kind == which and not first:
            first.append(n)
            return fault
        return "ok"

    def gate(kind, argv, n):
        if first == [n]:
            time.sleep(hold)
    s = Session(ck, [f], [], policy, gate=gate)
    reqs = [s.add("visit", path=f, line=5) if which != "check" and k % 3 else s.add("capture", url="org-protocol:/slow?%d" % k), s.add("visit", path=f, line=6), s.add("capture", url="org-protocol:/other?%d" % k)]
    s.b.write(reqs[0])
    time.sleep(0.3)
    s.b.write(reqs[1] + reqs[2])
    s.wait_all(30)
    s.close()
    return s


def one(ck, k):
    r = random.Random("c13/%d/%d" % (ck.seed, k))
    d = ck.dir("w%d" % k)
    cands = [os.path.join(d, "n.org"), os.path.join(d, "n n.org"), os.path.join(d, "\u0437\u0430\u043c\u0435\u0442\u043a\u0438.org"), "rel.org", "./rel2.org", os.path.join(d, "sub/../n3.org"), os.path.join(d, "-n.org"), os.path.join(d, "N.org"), os.path.join(d, "quote'\"$.org"), d + "//n4.org", os.path.join(d, "missing", "x.org"), "--eval=x"]
    files = r.sample(cands, r.choice([0, 1, 1, 2, 4])) if k else [cands[0]]
    if k % 5 == 1 and files:
        files = files + [files[0]]
    faults = {}
    mode = r.choice(["ok", "ok", "rand", "rand", "ensure", "open"])

    def policy(kind, argv, n):
        if mode == "ok":
            return "ok"
        if mode == "rand":
            return r.choice(["ok", "ok", "nil"] + BAD)
        return r.choice(BAD) if (kind == "ensure") == (mode == "ensure") else "ok"
    pre = r.random()
    s = Session(ck, files, r.choice([[], [], ["-s", "x"], ["--socket-name=a b"]]), policy, cmd=None if k % 9 else r.choice(["/nonexistent/emacsclient", d, "/dev/null"]) if k else None)
    alias = aliases(r, files, s.d) if pre < 0.5 else []
    reqs = [(p, r.choice([0, 1, 2, 10, 99999, -1, -5, 2147483647, 4294967297, 10**15])) for p in paths(r, files, d)]
    r.shuffle(reqs)
    reqs = reqs[:45]
    reqs += [(p, r.choice([0, 7])) for p in alias]
    r.shuffle(reqs)
    for f in files:
        for l in (0, 1, -1, 123456789):
            reqs.insert(r.randrange(len(reqs) + 1), (f, l))
    burst = r.choice([1, 1, 4, 8])
    for a in range(0, len(reqs), burst):
        data = b"".join(s.add("visit", path=p, line=l) for p, l in reqs[a:a + burst])
        s.b.write(data)
        if not s.wait_all(20) or s.b.eof:
            break
    s.close()
    return s


def check(ck):
    ck.design("Emacs", "Emacs.cfg" if not ck.thorough else "EmacsBig.cfg")
    ck.build_yield("burl_backend")
    ck.harness("fakeemacs")
    fixed = fixed_args(ck)
    with concurrent.futures.ThreadPoolExecutor(12) as ex:
        late = [ex.submit(slow, ck, 6 * ck.seed + k) for k in range(ck.n(4, 16))]
        ss = list(ex.map(lambda k: one(ck, k), range(ck.n(30, 400))))
        ss += [x.result() for x in late]
    ck.details["visits"] = sum(len(s.reqs) for s in ss)
    ck.sample([e.get("what") or e.get("out") or e.get("kind") for e in ss[0].raw[:8]])
    judge(ck, ss, fixed, what="visit")

"""C15: concurrent requests to Emacs never mix their arguments."""
import concurrent.futures, random, threading
from emacs import *

UARGS = ["-s", "name", "--socket-name=a b", "-f", "x y z", "--eval", "-c", "\u0436", "--", "'q'", "$HOME", "--alternate-editor=", "-t", "org-protocol:/u", "\n"]


def flood(ck, k):
    r = random.Random("c15/%d/%d" % (ck.seed, k))
    d = ck.dir("w%d" % k)
    files = [os.path.join(d, "n%d.org" % j) for j in range(r.choice([1, 2]))]
    n = r.choice([16, 40])
    # so many of them run at once
    meet, most = (12, 0.05) if k % 6 != 4 else (n, 0.5)
    user = [r.choice(UARGS) for _ in range(k % 10)]
    if k % 2:
        # composing of many arguments takes longer
        user += ["-%d" % j for j in range(r.choice([300, 500, 700, 901]))]
        n = 24
    # clients finish together, so that next steps of many requests start together
    cond, state = threading.Condition(), dict(wait=0, gen=0)

    def barrier(kind, argv, num):
        with cond:
            g = state["gen"]
            state["wait"] += 1
            if state["wait"] >= meet:
                state["wait"] = 0
                state["gen"] += 1
                cond.notify_all()
            elif not cond.wait_for(lambda: state["gen"] != g, most) and state["gen"] == g:
                state["wait"] = 0
                state["gen"] += 1
                cond.notify_all()
    s = Session(ck, files, user, lambda kind, argv, n: "ok", gate=barrier if k % 3 else None)
    for rnd in range(2):
        data = b""
        for j in range(n):
            if r.random() < 0.5:
                data += s.add("visit", path=r.choice(files), line=rnd * 1000 + j + 1)
            else:
                data += s.add("capture", url="org-protocol:/c?id=%d-%d" % (rnd, j))
        t = threading.Thread(target=s.b.write, args=(data,), daemon=True)
        t.start()
        if not s.wait_all(40) or s.b.eof:
            break
    s.close()
    return s


def check(ck):
    ck.design("Emacs", "Emacs.cfg" if not ck.thorough else "EmacsBig.cfg")
    ck.build_yield("burl_backend")
    ck.harness("fakeemacs")
    fixed = fixed_args(ck)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        ss = list(ex.map(lambda k: flood(ck, k), range(ck.n(24, 300))))
    ck.details["runs"] = sum(s.nrun for s in ss)
    ck.sample([[a.decode("utf-8", "replace")[:80] for a in e["args"]] for e in ss[3].raw if e["e"] == "run"][:6])
    judge(ck, ss, fixed, weak=True, what="runs of the Emacs client")

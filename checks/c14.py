"""C14: a capture is handed over exactly once or an error is reported."""
import concurrent.futures, itertools, random
from emacs import *
from c13 import slow

URLS = ["org-protocol:/capture?url=https%3A%2F%2Fa.example%2F&title=T", "org-protocol:", "org-protocol://x", "org-protocol:x y", "org-protocol:/\u0436\U0001f600", "org-protocol:/a\nb", "org-protocol:/'\"$(x)`;&|<>\\", "org-protocol:--eval", "org-protocol:/" + "x" * 60000,
        "org-protocol:/%00", "org-protocol:/\t\u0001\u007f", "org-protocol:/+12", "org-protocol: ", "org-protocol:/x\r\n"]
NOT = ["", "https://a.example/", "Org-protocol:/x", "org-protocol", " org-protocol:/x", "org-protocol/:x", "orgprotocol:/x", "x org-protocol:/x", "--eval", "(kill-emacs)", "-org-protocol:/x", "\norg-protocol:/x", "/tmp/x", "org-protocol\uff1a/x", "org-protoco:", "ORG-PROTOCOL:/x", "a:org-protocol:/x"]
FMT = ["org", "object", "", "Org-Protocol", "org-protocol ", "org-protocols", "null", "org-protoco"]
ERRS = [{"message": "x"}, "failed", ["e"], {}]


def seq(ck, plans):
    """Requests one by one, every step with the given outcome."""
    cur = {}

    def policy(kind, argv, n):
        return cur["plan"][("check", "ensure", "own").index(kind)]
    s = Session(ck, [], [], policy)
    for k, plan in enumerate(plans):
        cur["plan"] = plan
        s.send("capture", url="org-protocol:/c?n=%d" % k)
        if not s.wait_all(20) or s.b.eof:
            break
    s.close()
    return s


def rnd(ck, k):
    r = random.Random("c14/%d/%d" % (ck.seed, k))
    bad = r.choice([0, 0, 0.2, 0.5])

    def policy(kind, argv, n):
        if r.random() < bad:
            return r.choice(BAD_CHECK if kind == "check" else BAD)
        return "ok" if kind == "check" else r.choice(["ok", "ok", "nil", "empty"])
    s = Session(ck, [], r.choice([[], [], ["-s", "x"], ["--socket-name=\u0436", "-f"]]), policy, cmd=None if k % 7 else "/nonexistent/emacsclient" if k % 2 else ck.scratch)
    n = r.choice([10, 30])
    burst = r.choice([1, 1, 3, 10])
    for a in range(0, n, burst):
        data = b""
        for j in range(burst):
            x = r.random()
            # URLs of delivered captures differ
            url = r.choice(URLS) + ("#%d-%d" % (k, a + j) if r.random() < 0.95 else "")
            if x < 0.55:
                data += s.add("capture", url=url)
            elif x < 0.6:
                data += s.add("capture", url=r.choice(["org-protocol:/\0x", "org-protocol:/x?" + "y" * 140000]))
            elif x < 0.75:
                data += s.add("capture", url=r.choice(NOT))
            elif x < 0.85:
                data += s.add("capture", fmt=r.choice(FMT), url=url, err=r.choice([None, None] + ERRS))
            else:
                data += s.add("capture", url=r.choice(URLS + NOT), err=r.choice(ERRS))
        s.b.write(data)
        if not s.wait_all(20) or s.b.eof:
            break
    s.close()
    return s


def check(ck):
    ck.design("Emacs", "Emacs.cfg" if not ck.thorough else "EmacsBig.cfg")
    ck.build_yield("burl_backend")
    ck.harness("fakeemacs")
    fixed = fixed_args(ck)
    # all combinations of outcomes of the steps
    combos = [(a,) for a in ["ok"] + BAD_CHECK]
    plans = [(a, b, c) for a in ["ok"] + BAD_CHECK for b in ["ok", "nil", "empty"] + BAD for c in ["ok", "nil", "empty", "fulltext"] + BAD if (a == "ok" or (b == c == "ok")) and (step_ok("ensure", b) or c == "ok")]
    ck.details["outcome_combinations"] = len(plans)
    ck.rng.shuffle(plans)
    step = (len(plans) + 7) // 8
    with concurrent.futures.ThreadPoolExecutor(14) as ex:
        late = [ex.submit(slow, ck, 6 * ck.seed + k) for k in range(ck.n(6, 24))]
        jobs = [ex.submit(seq, ck, plans[k:k + step]) for k in range(0, len(plans), step)]
        jobs += [ex.submit(rnd, ck, k) for k in range(ck.n(40, 500))]
        ss = [j.result() for j in jobs + late]
    ck.details["captures"] = sum(len(s.reqs) for s in ss)
    ck.sample([e.get("what") or e.get("out") or e.get("kind") for e in ss[0].raw[:8]])
    judge(ck, ss, fixed, what="capture")

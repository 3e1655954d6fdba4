"""C09: mention queries are answered from one snapshot, link set queries from the files."""
import concurrent.futures, random
from gate import *


def play(s, plan, r):
    """Performs a plan; letters are explained in SnapshotGen."""
    g = s.g
    for a in plan:
        if a in "MLOX":
            s.send(a)
        elif a == "C":
            s.change()
        elif a == "G":
            s.grant()
        elif a == "F":
            # a failure is remembered as well as a tree
            s.grant(None, r.choice([2, 2, 13, 5, 24]))
        elif a in "olx":
            # has to be answered though everything else is stopped
            g.quiet()
            with g.lock:
                hold = list(g.stops)
            if not s.probe(a.upper(), hold):
                return
        g.quiet()


def session(ck, k, plan, stress=False):
    r = random.Random("c09/%d/%d/%s" % (ck.seed, k, plan))
    s = Scene(ck, "s%d" % k, r, r.choice([1, 1, 2, 2, 3]) if not stress else 2, 4, auto=stress)
    if stress:
        for n in range(60):
            s.send("L" if n in (3, 4, 30, 31) else r.choice("MMMMOX"))
            if n in (7, 20, 21):
                s.change()
    else:
        play(s, plan, r)
    ok = s.finish()
    if ok:
        # after everything the snapshot is still the same one and the files are read again
        s.send("M", ["https://f%d.example/version/%d" % (f, v) for f in range(s.nf) for v in range(s.nv)], 1000)
        s.change()
        s.send("L", ["https:"], 0)
        s.finish()
        # queries that look alike
        marks = ["https://f%d.example/version/%d" % (f, v) for f in range(s.nf) for v in range(s.nv)] + s.pool
        a = r.sample(marks, 3)
        like = [a, [r.choice([" ", ",", "\n", "", "|", "\0", "] [", '" "', '","', ", "]).join(a)], [a[0], r.choice([" ", ",", "\n", "\0"]).join(a[1:])], a[::-1], a[:2], a[1:], a + [""], [x.upper() for x in a], [a[0]], a + a]
        r.shuffle(like)
        for q in like[:4] + [a] + like[4:7]:
            s.send("M", q, 50)
            s.finish()
    s.close()
    return s.trace(), s.cases(), plan


def check(ck):
    ck.design("Snapshot", "SnapshotLive.cfg")
    if ck.thorough:
        ck.design("Snapshot", "Snapshot.cfg")
        ck.design("Snapshot", "SnapshotBig.cfg")
    ck.build_yield("burl_backend")
    ck.native("opengate")
    r = ck.rng
    g = ck.tlc("SnapshotGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % ck.n(4, 5), workers=1)
    plans = sorted("".join(p["plan"]) for p in g.printed)
    if not ck.thorough:
        plans = [p for p in plans if r.random() < 180 / len(plans)]
    plans += ["".join(r.choice("MMMLLGGGGGCCCXolo") for _ in range(r.choice([8, 14, 25]))) for _ in range(ck.n(80, 1500))]
    plans += ["".join(r.choice("MMMLLGGGGFCCXolo") for _ in range(r.choice([6, 9, 14]))) for _ in range(ck.n(40, 600))]
    ck.details["plans"] = len(plans)
    jobs = [(k, p, False) for k, p in enumerate(plans)] + [(len(plans) + k, "stress", True) for k in range(ck.n(12, 200))]
    traces, cases = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for t, c, plan in ex.map(lambda j: session(ck, *j), jobs):
            t["plan"] = plan
            traces.append(t)
            cases += c
    ck.details["sessions_s"] = round(time.time() - ck.t0, 1)
    ck.details["events"] = sum(len(t["ev"]) for t in traces)
    ck.sample(dict(plan=traces[7]["plan"], events=[dict(e, q=(e.get("q") or [])[:3], urls=(e.get("urls") or [])[:3]) for e in traces[7]["ev"]][:20]))
    for t, info in ck.accept("SnapshotTrace", traces):
        ck.violation("session of plan %s is not explained by the specification at event %s" % (t["plan"], info["event_no"]),
                     dict(plan=t["plan"], event=info["event"], events=[dict(e, q=(e.get("q") or [])[:8], urls=(e.get("urls") or [])[:12]) for e in t["ev"][:info["event_no"]]]))
    if ck.viol:
        return
    for c, why in ck.judge("Mentions", cases, shards=6)[:6]:
        ck.violation("concurrent mentions: %s" % why["what"], dict(q=c["q"], limit=c["limit"], prop=c["prop"], out=c["out"]))

"""C02: exactly one response per request, with its id and its own result."""
import sys, os
from scen import *


def check(ck):
    ck.design("Session", "Session.cfg" if not ck.thorough else "SessionBig.cfg")
    ck.design("Session", "SessionLive.cfg")
    w = World(ck)
    jobs = []
    fam = [(["ok", "gated"], 10, 4, {}),
           (["gated"], 8, 3, dict(ids=PLAIN_IDS)),
           (["ok", "gated"], 40, 25, dict(ids=IDS)),
           (["ok"], 30, 10, dict(ids=PLAIN_IDS, ok=["hello", "allmentions", "mention", "linkset"]))]
    scripts = gen_many(ck, [(ck.n(14, 150), f[0], f[1], f[2], 160) for f in fam])
    for n, f in enumerate(fam):
        for k, s in enumerate(scripts[n]):
            jobs.append((s, "%d/%d/%d" % (ck.seed, n, k), f[3]))
    # all at once, closed immediately: everything is still answered
    for k in range(ck.n(4, 30)):
        m = 60
        s = [dict(a="send", kind="ok")] * m + [dict(a="close"), dict(a="end")]
        jobs.append((s, "burst%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, size=lambda r: r.choice([1, 100, 5000]))))
        g = [dict(a="send", kind="gated")] * 12 + [dict(a="close")]
        order = list(range(1, 13))
        ck.rng.shuffle(order)
        g += [dict(a="release", i=i) for i in order] + [dict(a="end")]
        jobs.append((g, "gates%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS)))
    # more of them than anybody expects, all wait
    for k in range(ck.n(1, 4)):
        m = ck.n(100, 180)
        order = list(range(1, m + 1))
        ck.rng.shuffle(order)
        g = [dict(a="send", kind="gated")] * m + [dict(a="send", kind="ok"), dict(a="wait")] + [dict(a="release", i=i) for i in order] + [dict(a="close"), dict(a="end")]
        jobs.insert(0, (g, "crowd%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, gate_fail=0.1)))
    # the end of input does not stop the work on requests received before
    for k, late in enumerate(ck.n([1.3, 0.6, 2.6, 5.5], [0.4, 0.8, 1.3, 1.7, 2.6, 4, 6, 11]) * 2):
        g = [dict(a="send", kind="gated"), dict(a="send", kind="ok"), dict(a="send", kind="gated"), dict(a="close"), dict(a="release", i=3), dict(a="release", i=1), dict(a="end")]
        jobs.insert(0, (g, "late%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, late=late)))
    # hundreds of requests in one write: handlers really overlap
    for k, ok in enumerate(ck.n(2, 12) * [["hello"], ["mention"], ["linkset", "badprefix"], ["preview", "denied", "nourl"],
                                       ["hello", "mention", "linkset", "denied", "nohello"]]):
        m = 400 if ok != ["linkset", "badprefix"] else 120
        s = [dict(a="send", kind="ok")] * m + [dict(a="wait")] + [dict(a="send", kind="ok")] * 40 + [dict(a="close"), dict(a="end")]
        jobs.append((s, "flood%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, ok=ok, burst=True)))
    runs, rej = run_scenarios(ck, w, jobs)
    for r in runs[:2]:
        ck.sample(dict(items=[dict(kind=x.kind, cls=x.cls, frame=x.bytes[4:90].decode("latin-1")) for x in r.items][:6],
                       events=r.trace["ev"][:14]))
    ck.details["scenarios"] = len(jobs)
    ck.details["requests"] = sum(len(r.items) for r in runs)
    ck.details["completion_orders"] = len({tuple(e["c"][0] for e in r.trace["ev"] if e["e"] == "frame") for r in runs})
    report(ck, rej, "session")

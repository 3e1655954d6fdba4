"""C31: nothing is held for requests that have been answered."""
import concurrent.futures
from resources import *

TASKS = 6


def check(ck):
    ck.design("Resources", "Resources.cfg")
    ck.design("Resources", "ResourcesSeq.cfg")
    if ck.thorough:
        ck.design("Resources", "ResourcesBig.cfg")
    w = World(ck)
    plans = []
    for depth, hold, n in [(6, "TRUE", ck.n(60, 600)), (14, "TRUE", ck.n(60, 700)), (30, "TRUE", ck.n(20, 300)), (12, "FALSE", ck.n(30, 300))]:
        g = ck.tlc("ResGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Depth = %d\n Hold = %s\n" % (depth, hold),
                   simulate=n, depth=depth + 2, seedoff=depth)
        part = sorted({"".join(p["plan"]) for p in g.printed})
        ck.rng.shuffle(part)
        plans += part[:n]
    worlds = ["good", "good", "dir", "missing", "dirfirst", "one", "empty", "none", "many"]
    jobs = []
    for k, p in enumerate(plans):
        r = random.Random("c31/%d/%d" % (ck.seed, k))
        jobs.append((p, dict(seed=k, world=r.choice(worlds), emacs=r.choice([True] * 6 + [False, "dir"]), log=r.choice([None, None, "file"])), False))
    # clients that take their time
    for k, p in enumerate(["h" + "C" * 9 + "_R.", "h" + "V" * 9 + "_?R.O.", "h" + "VwkC" * 3 + "_?R.", "hVVVV_r?_R."][:ck.n(3, 4)]):
        jobs.insert(0, (p, dict(seed=k, world="good", emacs=True), False))
    # one request again and again, with few descriptors
    reps = [(q, wd, em) for q in "OXMmLlVvwkNDCcF" for wd, em in [("good", True), ("dir", True), ("missing", True), ("dirfirst", False)]
            if not (q in "OXvcl" and wd != "good")]
    for k, (q, wd, em) in enumerate(reps):
        jobs.append((q * ck.n(25 if q in CMDS else 40, 300), dict(seed=k, world=wd, emacs=em, tight=26), True))
    for k in range(ck.n(4, 40)):
        r = random.Random("c31r/%d/%d" % (ck.seed, k))
        jobs.append(("".join(r.choice("OXMmLlVvwkNDCcF") for _ in range(ck.n(60, 400))), dict(seed=k, world=r.choice(worlds), emacs=True, tight=30), True))

    def go(j):
        if sum(1 for s in done if s.stuck) > 6:
            return None
        plan, kw, each = j
        s = Session(w, **kw)
        s.plan, s.kw = plan, kw
        s.run(plan, each)
        done.append(s)
        return s
    done = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ss = [s for s in ex.map(go, jobs) if s]
    ck.details["sessions"] = len(ss)
    ck.details["requests"] = sum(s.n for s in ss)
    ck.details["looks"] = sum(e["e"] == "obs" for s in ss for e in s.ev)
    ck.details["goroutines"] = max([e["task"] for s in ss for e in s.ev if e["e"] == "dump"], default=0)
    ck.details["sessions_s"] = round(time.time() - ck.t0, 1)
    ck.sample(dict(plan=ss[5].plan, events=ss[5].ev[:12]))
    for t, info in ck.accept("ResourcesTrace", [dict(ev=s.ev, no=k, nfiles=w.nfiles(s.world)) for k, s in enumerate(ss)],
                             constants="CONSTANTS\n Reqs = {}\n NFiles = 0\n Limit = 0\n Mutant = \"none\"\n TaskBase = %d\n" % TASKS):
        s = ss[t["no"]]
        ck.violation("after %s (notes: %s): event not allowed by the specification: %s" % (s.plan[:40], s.world, json.dumps(info["event"])),
                     dict(plan=s.plan, opts=repr(s.kw), event=info["event"], events=s.ev[:info["event_no"]], stacks=getattr(s, "stacks", [])[:20]))

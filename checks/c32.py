"""C32: the backend ends when the browser has gone away."""
import concurrent.futures
from ending import *


class World:
    def __init__(self, ck):
        self.ck = ck
        self.dir = ck.dir("end")
        self.notes = os.path.join(self.dir, "notes.org")
        with open(self.notes, "w") as f:
            f.write("* H\n[[https://n.example/one][d]]\n")
        self.exe = ck.build("burl_backend")
        self.emacs = ck.harness("fakeemacs")


def check(ck):
    ck.design("Ending", "Ending.cfg" if not ck.thorough else "EndingBig.cfg")
    w = World(ck)
    plans = ["I", "G", "T", "GI", "IG", "VI?r", "VGr?", "VIGr?", "VT?", "sBGI", "sB?G?", "sBI?u", "sBT", "PI", "HI", "OHI", "OOH?I", "VHI?r", "H?T", "PG?I", "VPI?r", "GO?", "GB?", "VVI?r?r", "VOIr", "OIG", "VG?I?r", "sOBVI?r?G?", "sB.V.T", "VT?", "VVT?", "OVT?", "VIT?", "VGT?", "V?T", "sBVT?", "VrVT?"]
    for depth, n in [(4, ck.n(60, 500)), (8, ck.n(110, 1500)), (16, ck.n(50, 700))]:
        g = ck.tlc("EndingGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Depth = %d\n" % depth,
                   simulate=n, depth=depth + 2, seedoff=depth)
        part = sorted({"".join(p["plan"]) for p in g.printed})
        ck.rng.shuffle(part)
        plans += part[:n]
    slow = []

    def go(j):
        if len(slow) > 8:
            return None
        s = Session(w, j, j % 3 == 0, 10)
        s.plan = plans[j]
        t = time.time()
        s.run(s.plan)
        if time.time() - t > 9:
            slow.append(s)
        return s
    with concurrent.futures.ThreadPoolExecutor(12) as ex:
        ss = [s for s in ex.map(go, range(len(plans))) if s]
    ck.details["sessions"] = len(ss)
    ck.details["ends"] = {x: sum(e.get("status") == x for s in ss for e in s.ev) for x in sorted({e["status"] for s in ss for e in s.ev if e["e"] == "ended"})}
    ck.details["still_running"] = sum(e["e"] == "alive" for s in ss for e in s.ev)
    ck.details["sessions_s"] = round(time.time() - ck.t0, 1)
    ck.sample(dict(plan=ss[30].plan, events=ss[30].ev))
    for t, info in ck.accept("EndingTrace", [dict(ev=s.ev, no=k) for k, s in enumerate(ss)],
                             constants="CONSTANTS\n Reqs = {}\n Mutant = \"none\"\n"):
        s = ss[t["no"]]
        ck.violation("session %s: event not allowed by the specification: %s" % (s.plan, json.dumps(info["event"])),
                     dict(plan=s.plan, event=info["event"], events=s.ev[:info["event_no"]], stderr=s.err))

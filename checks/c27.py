"""C27: the client library delivers every reply to its caller and reaps the backend."""
import concurrent.futures
from client import *

NCALLS = 5


def session(ck, k, plan):
    if len(HUNG) > 6:
        return None
    r = random.Random("c27/%d/%d" % (ck.seed, k))
    s = Session(ck, "s%d" % k, r, NCALLS)
    s.typed = {p["c"] for p in plan if p["a"] == "reply" and p["k"] == "typ"}
    patient = r.choice([0, 0.3, 1])
    closed = False
    live = True
    for p in plan:
        a = p["a"]
        if a == "issue":
            s.issue(p["c"])
        elif a == "bad":
            s.issue(p["c"], True)
            s.settle([p["c"]])
        elif a == "reply":
            b = s.reply(p["c"], p["k"], p["v"])
            if b is not None:
                s.write(b)
                if r.random() < patient and live and not closed:
                    s.settle([p["c"]])
        elif a == "other":
            s.other(p["k"])
            if p["k"] != "stray":
                live = False
                if r.random() < patient:
                    s.settle()
        elif a == "deaf":
            s.make_deaf()
        elif a == "exit":
            s.exit(p["v"])
            if r.random() < patient:
                s.settle()
        elif a == "close":
            s.close()
            closed = True
        if s.crashed:
            break
    for c in range(1, NCALLS + 1):
        if c not in s.issued and r.random() < 0.7:
            s.issue(c)
    s.finish()
    return dict(ev=s.ev, plan=plan, closeerr=getattr(s, "closeerr", ""))


def stress(ck, k, n):
    """Many concurrent calls answered in another order."""
    if len(HUNG) > 6:
        return None
    r = random.Random("c27s/%d/%d" % (ck.seed, k))
    s = Session(ck, "x%d" % k, r, n)
    cs = list(range(1, n + 1))
    for c in cs:
        s.issue(c)
    s.wait(lambda: len(s.ids) >= n)
    r.shuffle(cs)
    cut = r.choice([n, n, n - 3])
    data = b""
    for c in cs[:cut]:
        b = s.reply(c, r.choice(["ok", "ok", "err"]), 1)
        if b is not None:
            data += b
    s.peer.tell(b"W", data)
    s.settle(cs[:cut])
    if cut < n:
        s.other(r.choice(["break", "eof"]))
        s.settle()
    if r.random() < 0.5:
        s.exit(r.choice([0, 3]))
        s.close()
    else:
        s.close()
        s.exit(r.choice([0, 3]))
    s.finish()
    return dict(ev=s.ev, plan="stress %d" % n)


def starts(ck):
    d = ck.dir("start")
    plain = os.path.join(d, "plain")
    with open(plain, "w") as f:
        f.write("no program\n")
    script = os.path.join(d, "noint")
    with open(script, "w") as f:
        f.write("#!%s/nothing\n" % d)
    os.chmod(script, 0o755)
    for k, argv in enumerate([[], [os.path.join(d, "missing")], [d], [plain], [script], [""], ["no-such-command-verif"], [os.path.join(d, "missing"), "a"]]):
        s = Session(ck, "b%d" % k, random.Random(k), 0, argv)
        s.kill()
        yield dict(ev=s.ev, plan="start %r" % argv)


def check(ck):
    ck.design("Client", "Client.cfg")
    if ck.thorough:
        ck.design("Client", "ClientLive.cfg")
        ck.design("Client", "ClientBig.cfg")
    ck.harness("client")
    ck.harness("client", yields=True)
    ck.harness("peer")
    g = ck.tlc("ClientGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Calls = {1, 2, 3, 4, 5}\n Vals = {1, 2}\n"
               " Statuses = {0, 3}\n MaxWire = 4\n Mutant = \"none\"\n", simulate=ck.n(900, 12000), depth=45)
    plans = {}
    for p in g.printed:
        # a session that has hardly done anything is not interesting
        if sum(x["a"] == "issue" for x in p["plan"]) > 0:
            plans[json.dumps(p["plan"])] = p["plan"]
    plans = list(plans.values())
    ck.rng.shuffle(plans)
    plans = plans[:ck.n(260, 4000)]
    ck.details["plans"] = len(plans)
    traces = list(starts(ck))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        traces += ex.map(lambda j: session(ck, *j), list(enumerate(plans)))
        traces += ex.map(lambda j: stress(ck, j, ck.rng.choice([10, 20, 40])), range(ck.n(8, 60)))
    traces = [t for t in traces if t]
    ck.details["sessions_s"] = round(time.time() - ck.t0, 1)
    ck.details["events"] = sum(len(t["ev"]) for t in traces)
    ck.sample(dict(events=traces[12]["ev"][:25]))
    for t, info in ck.accept("ClientTrace", traces, constants="CONSTANTS\n Calls = {%s}\n Vals = {1, 2}\n Statuses = {0, 3}\n MaxWire = 50\n Mutant = \"none\"\n"
                             % ", ".join(map(str, range(1, 41))), inv="OwnAnswer"):
        ck.violation("session of the client library is not explained by the specification at event %s: %s" % (info["event_no"], json.dumps(info["event"])),
                     dict(closeerr=t.get("closeerr"), event=info["event"], events=t["ev"][:info["event_no"]], plan=t["plan"]))

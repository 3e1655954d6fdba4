"""C01: standard output carries only whole native-messaging frames."""
import struct
import frames as F
from scen import *

FAKE = struct.pack("=I", 2).decode("latin-1") + "{}"
NOISE = ["", "noise\n", "x" * 300000, FAKE, "{\"id\":1,\"result\":1}\n", "\x00\x01"]
LOGGING = ["hello", "manyprefixes", "badprefix", "unknown", "preview", "mention", "linkset", "denied"]
SIZES = [1, 100, 170, 255, 256, 257, 4095, 4096, 65535, 65536, 65537, 200000]


def fill(body_len):
    """Length of the version string that makes the response about that long."""
    return max(1, body_len - 90)


def check(ck):
    ck.design("Session", "Session.cfg" if not ck.thorough else "SessionBig.cfg")
    w = World(ck)
    jobs = []
    fam = [(["ok", "gated"], 14, 6, dict(noise=NOISE, gate_fail=0.6, ok=LOGGING, ids=IDS)),
           (["ok", "gated", "bad"], 8, 4, dict(noise=NOISE, gate_fail=0.6, ok=LOGGING, ids=PLAIN_IDS)),
           (["ok"], 24, 12, dict(size=lambda r: fill(r.choice(SIZES)), ids=PLAIN_IDS)),
           (["ok", "gated"], 20, 10, dict(stall=True, size=lambda r: r.choice([10, 3000, 90000]), noise=NOISE))]
    scripts = gen_many(ck, [(ck.n(12, 90), f[0], f[1], f[2], 100) for f in fam])
    logs = [None, "-", "", os.path.join(ck.scratch, "log.txt")]
    for n, ss in enumerate(scripts):
        for k, s in enumerate(ss):
            o = dict(fam[n][3])
            o["log"] = logs[k % 4]
            if n == 2 and k % 2:
                o["read_size"] = ck.rng.choice([1, 3, 7, 4096])
                o["size"] = lambda r: fill(r.choice([100, 255, 256, 257, 4096]))
            jobs.append((s, "out%d/%d/%d" % (ck.seed, n, k), o))
    # many large responses computed at once while nobody reads
    for k in range(ck.n(4, 24)):
        s = [dict(a="send", kind="ok")] * 40 + [dict(a="close"), dict(a="end")]
        jobs.append((s, "burst%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, stall=True, ok=["allmentions", "hello", "mention"],
                     size=lambda r: r.choice([1, 10, 5000]), log=logs[k % 4])))
    # every length of a response around multiples of 256
    sweep = [dict(a="send", kind="ok")] * ck.n(300, 1200) + [dict(a="wait"), dict(a="close"), dict(a="end")]
    for start in (1, 400, 65280) if not ck.thorough else (1, 600, 1200, 4000, 65280, 65500):
        cnt = [start]

        def nxt(r, cnt=cnt):
            cnt[0] += 1
            return cnt[0]
        jobs.append((sweep, "sweep%d" % start, dict(ids=PLAIN_IDS, ok=["hello"], size=nxt)))
    one = [dict(a="send", kind="ok"), dict(a="send", kind="ok"), dict(a="wait"), dict(a="close"), dict(a="end")]
    for big in ([17000000] if not ck.thorough else [17000000, 16777300, 40000000]):
        jobs.append((one, "big%d" % big, dict(ids=PLAIN_IDS, ok=["hello"], size=lambda r, b=big: b)))
    # notes that can not be read make the program write to its log
    bad = os.path.join(w.dir, "missing.org")
    for k in range(ck.n(2, 8)):
        for lg in ("-", None):
            s = [dict(a="send", kind="ok")] * 6 + [dict(a="close"), dict(a="end")]
            jobs.append((s, "missing%d" % k, dict(ids=PLAIN_IDS, ok=["mentionerr", "linkseterr"], args=["-org", bad], log=lg)))
    runs, rej = run_scenarios(ck, w, jobs)
    ck.details["sessions"] = len(jobs)
    ck.details["responses"] = sum(sum(1 for e in r.trace["ev"] if e["e"] == "frame") for r in runs)
    for r in runs[:2]:
        ck.sample(dict(items=[dict(kind=x.kind, cls=x.cls) for x in r.items][:5], events=r.trace["ev"][:12], opts=repr(r.opts)[:200]))
    report(ck, rej, "standard output")
    # the writer on its own: every byte goes into one frame
    cases = []
    for k in range(ck.n(60, 400)):
        parts = [F.req(i + 1, ck.rng.choice(TEXT) * ck.rng.choice([0, 1, 3, 200]), fail=ck.rng.random() < 0.3) for i in range(12)]
        data = b"".join(p[0] for p in parts)
        cases.append(F.case([p[1] for p in parts], F.cut(data, [ck.rng.randrange(len(data))])))
    F.report(ck, cases, F.run(ck, cases))

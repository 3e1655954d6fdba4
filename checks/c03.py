"""C03: how input bytes are split into reads never changes the responses."""
import frames as F
from scen import *

WS = [b"", b" ", b"\n", b"\r\n", b" \t\n ", b" " * 600]
TOK = ["a", "\u0434", "\U0001f600x", "q\"\\", "", "[{\"id\":9}]", "\u2028"]


def streams(ck, n):
    """Short streams of requests with white space, as (bytes, descriptions)."""
    r = ck.rng
    for k in range(n):
        parts = []
        for i in range(r.choice([1, 2, 2, 3, 4])):
            pre, post = (r.choice(WS[:5]) if r.random() < 0.5 else b"" for _ in "ab")
            parts.append(F.req(i + 1, r.choice(TOK) + r.choice(TOK), pre, post, fail=r.random() < 0.15, order=r.randrange(3),
                               ida=r.choice([i + 1, "s%d" % i, 2.5 + i])))
        yield b"".join(p[0] for p in parts), [p[1] for p in parts]


def check(ck):
    ck.design("Framing", "Framing.cfg" if not ck.thorough else "FramingBig.cfg")
    r = ck.rng
    cases = []
    # every single cut, every byte apart, pairs of cuts
    for k, (data, fr) in enumerate(streams(ck, ck.n(6, 30))):
        for ed in (False, True):
            cases.append(F.case(fr, [data], eofdata=ed))
            cases.append(F.case(fr, [bytes([b]) for b in data], eofdata=ed))
        for p in range(1, len(data)):
            cases.append(F.case(fr, F.cut(data, [p]), eofdata=p % 5 == 0))
        for _ in range(ck.n(60, 2500)):
            cases.append(F.case(fr, F.cut(data, [r.randrange(len(data)) for _ in range(r.choice([2, 2, 3, 5, 9]))]), eofdata=r.random() < 0.2))
        # input stays open: everything complete must be answered at once
        for p in [4, 5, len(data) - 1] + [r.randrange(1, len(data)) for _ in range(3)]:
            cases.append(F.case(fr, F.cut(data, [p]), open=True, want=len(fr), waitend=False))
    # ends of values around the sizes at which decoder buffers are filled
    for base in [512, 1024, 1536, 2048, 4096] + ([8192, 16384, 32768, 65536] if ck.thorough else [8192, 65536]):
        for off in range(-3, 4) if (ck.thorough or base <= 1536) else (-1, 0, 1):
            for post in (b"", b"\n", b" \n", b"\t" * 3, b" " * 700):
                empty = F.req(1, "", b"", post)[1]["len"] - len(post)
                tok = "t" * (base + off - empty)
                a = F.req(1, tok, b"", post)
                b = F.req(2, "second", r.choice(WS), r.choice(WS))
                data = a[0] + b[0]
                fr = [a[1], b[1]]
                end = 4 + base + off
                cases.append(F.case(fr, [data]))
                cases.append(F.case(fr, F.cut(data, [end])))
                cases.append(F.case(fr, F.cut(data, [4, end, len(a[0])])))
                if base <= 1536:
                    cases.append(F.case(fr, F.cut(data, [len(a[0]) + 1])))
                    cases.append(F.case(fr, F.cut(data, range(0, len(data), 100))))
    # white space only between value and the next frame, one byte per read
    for post in WS:
        for pre in WS:
            a, b = F.req(1, "one", pre, post), F.req(2, "two", pre, post)
            d = a[0] + b[0]
            cases.append(F.case([a[1], b[1]], [bytes([x]) for x in d]))
            cases.append(F.case([a[1], b[1]], F.cut(d, [len(a[0]) - len(post), len(a[0])])))
            cases.append(F.case([a[1], b[1]], [d], open=True, want=2, waitend=False))
    # a lot of white space is not read at once
    for n in (5000, 70000, 300000):
        a, b, c = F.req(1, "one", b"", b" " * n), F.req(2, "two", b"\n" * n, b""), F.req(3, "three", b" ", b"\r\n" * (n // 2))
        d = a[0] + b[0] + c[0]
        fr = [a[1], b[1], c[1]]
        for pts in ([], [len(a[0])], [len(a[0]) - n, len(a[0]) - 1], range(0, len(d), 65536), [len(a[0]) - n + 2, len(a[0]) + len(b[0])]):
            cases.append(F.case(fr, F.cut(d, pts)))
        cases.append(F.case(fr, [d], open=True, want=3, waitend=False))
        p = [F.reply(0, "one", b"", b" " * n), F.reply(1, "two", b"\t" * n, b"")]
        for pts in ([], [len(p[0][0])], [len(p[0][0]) - n]):
            cases.append(F.case([x[1] for x in p], F.cut(p[0][0] + p[1][0], pts), mode="client", calls=["one", "two"]))
    # the client side
    for k in range(ck.n(40, 400)):
        n = r.choice([1, 2, 3, 6])
        calls = ["c%d%s" % (i, r.choice(TOK)) for i in range(n)]
        rep = [F.reply(i, calls[i], r.choice(WS[:5]), r.choice(WS), err=r.random() < 0.2, order=r.randrange(3)) for i in range(n)]
        order = list(range(n))
        r.shuffle(order)
        data = b"".join(rep[i][0] for i in order)
        fr = [rep[i][1] for i in order]
        cs = [calls[i] for i in order]
        # calls are issued in the order of ids, judged in the order of replies
        for pts in ([], range(len(data)), [r.randrange(len(data)) for _ in range(3)], [4], [len(data) - 1], [len(rep[order[0]][0]) - 1]):
            c = F.case(fr, F.cut(data, pts), mode="client", calls=calls)
            c["_order"] = order
            cases.append(c)
    rec = F.run(ck, cases)
    for d in rec:
        c = cases[d["_case"]]
        if "_order" in c:
            d["calls"] = [d["calls"][i] for i in c["_order"]]
    F.report(ck, cases, rec)
    ck.details["cut_streams"] = len(cases)
    if ck.viol:
        return
    ck.sample(dict(frames=cases[5]["_frames"], chunks=cases[5]["chunks"], out=rec[5]["out"]))
    # the whole program, pieces are really read one by one
    w = World(ck)
    jobs = []

    def bytewise(rng, data):
        return [data[k:k + 1] for k in range(len(data))]

    def few(rng, data):
        n = rng.choice([1, 2, 3])
        return F.cut(data, [rng.choice([1, 2, 3, 4, 5, len(data) - 1, rng.randrange(len(data))]) for _ in range(n)])
    scripts = gen_many(ck, [(ck.n(10, 60), ["ok", "gated"], 6, 3, 60), (ck.n(4, 40), ["ok"], 12, 6, 60)])
    for j, ss in enumerate(scripts):
        for k, s in enumerate(ss):
            jobs.append((s, "cut%d/%d/%d" % (ck.seed, j, k), dict(ids=PLAIN_IDS, cut=bytewise if k % 4 == 0 else few,
                         size=lambda r: r.choice([1, 10, 400, 520]))))
    # several frames in one write
    for k in range(ck.n(4, 40)):
        s = [dict(a="send", kind="ok")] * 30 + [dict(a="close"), dict(a="end")]
        jobs.append((s, "many%d/%d" % (ck.seed, k), dict(ids=PLAIN_IDS, size=lambda r: r.choice([1, 100, 700, 5000, 70000]))))
    runs, rej = run_scenarios(ck, w, jobs)
    ck.details["sessions"] = len(jobs)
    report(ck, rej, "session with cut input")

"""C04: a broken frame ends the session without harm."""
import struct
import frames as F
from scen import *


def oversize(n, extra=b""):
    return struct.pack("=I", n) + extra, dict(len=n, need=n, body="req", id="0", res="never")


def bad(body):
    return frame(body), dict(len=len(body), need=len(body), body="bad", id="0", res="never")


def lib_cases(ck):
    r = ck.rng
    cases = []
    def good(i, tok="v"):
        return F.req(i, tok + str(i), r.choice([b"", b" "]), r.choice([b"", b"\n"]), fail=r.random() < 0.1)
    # the limit is exact, for several limits; header comes in pieces; input may stay open
    for max in [60, 64, 100, 511, 512, 513, 4096] + ([257, 1000, 65535, 65536, 1 << 20] if ck.thorough else [65536]):
        for off in (-2, -1, 0, 1, 2, 200):
            for npre in (0, 2):
                for opened in (False, True):
                    base = F.req(7, "", b"", b"")[1]["len"]
                    pad = max + off - base
                    if pad < 0:
                        continue
                    x = F.req(7, "z" * pad, b"", b"")
                    after = F.req(8, "after", b"", b"")
                    parts = [good(i + 1) for i in range(npre)] + [x, after]
                    data = b"".join(p[0] for p in parts)
                    fr = [p[1] for p in parts]
                    over = off > 0
                    start = sum(len(p[0]) for p in parts[:npre])
                    for pts in ([], [start + 4], [start + 1, start + 4, start + 10]):
                        cases.append(F.case(fr, F.cut(data, pts), max=max, open=opened, want=len(fr), waitend=over or not opened))
                    if over:
                        # nothing but the header is available
                        for pts in ([], [start + 2]):
                            cases.append(F.case(fr, F.cut(data[:start + 4], pts), max=max, open=opened, waitend=True))
    for n in [2**30 + 1, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**30 + 2**20]:
        for opened in (False, True):
            parts = [good(1), good(2)]
            h = struct.pack("=I", n)
            # TLC has 32-bit integers
            fr = [p[1] for p in parts] + [dict(len=min(n, 2**31 - 1), need=2**31 - 1, body="req", id="0", res="never")]
            for extra in (b"", b"{\"id\":77,\"method\":\"echo\",\"params\":[\"x\"]}"):
                cases.append(F.case(fr, [parts[0][0] + parts[1][0] + h + extra], open=opened, waitend=True))
    # exactly the default limit is not refused: still waits for the body
    for n in [2**30, 2**30 - 1, 2**24]:
        g = good(1)
        cases.append(F.case([g[1], dict(len=n, need=n, body="req", id="0", res="never")], [g[0] + struct.pack("=I", n)],
                            open=True, want=2, waitend=False))
    # cut short at every byte
    for k in range(ck.n(2, 8)):
        parts = [good(1), good(2), good(3, r.choice(["\u0434", "w" * 600]))]
        data = b"".join(p[0] for p in parts)
        last = len(parts[0][0]) + len(parts[1][0])
        pts = list(range(0, len(data))) if len(data) < 400 else sorted(set(r.randrange(len(data)) for _ in range(200)) | set(range(last, last + 30)))
        for p in pts:
            cases.append(F.case([q[1] for q in parts], [data[:p]] if p else [], eofdata=p % 3 == 0))
            if p % 4 == 0:
                cases.append(F.case([q[1] for q in parts], F.cut(data[:p], [r.randrange(p + 1), last]), eofdata=p % 8 == 0))
    # not a request object
    for body in BAD_BODIES:
        for npre in (0, 1, 3):
            for opened in (False, True):
                parts = [good(i + 1) for i in range(npre)] + [bad(body), good(9)]
                data = b"".join(p[0] for p in parts)
                cases.append(F.case([p[1] for p in parts], F.cut(data, [r.randrange(len(data))]), open=opened, waitend=True))
    return cases


def check(ck):
    ck.design("Session", "Session.cfg" if not ck.thorough else "SessionBig.cfg")
    ck.design("Framing", "Framing.cfg")
    cases = lib_cases(ck)
    # a request object as the only content makes the session end or go on depending on the decoder only
    rec = F.run(ck, cases)
    F.report(ck, cases, rec)
    ck.details["codec_streams"] = len(cases)
    if ck.viol:
        return
    w = World(ck)
    jobs = []
    fam = [(["ok", "bad"], 8, 3), (["ok", "gated", "bad"], 8, 3), (["ok", "gated", "trunc"], 6, 2), (["gated", "bad", "trunc"], 6, 2)]
    scripts = gen_many(ck, [(ck.n(22, 160), f[0], f[1], f[2], 80) for f in fam])
    for n, ss in enumerate(scripts):
        for k, s in enumerate(ss):
            jobs.append((s, "bad%d/%d/%d" % (ck.seed, n, k), dict(ids=PLAIN_IDS)))
    # every kind of bad body in the real program, with a request running
    for k, body in enumerate(BAD_BODIES + [None] * 3):
        s = [dict(a="send", kind="gated"), dict(a="send", kind="ok"), dict(a="send", kind="bad"), dict(a="send", kind="ok"),
             dict(a="wait"), dict(a="release", i=1), dict(a="end")]
        jobs.append((s, "body%d" % k, dict(ids=PLAIN_IDS, badbody=body if body is not None else "oversize")))
    runs, rej = run_scenarios(ck, w, jobs)
    ck.details["sessions"] = len(jobs)
    ck.sample(dict(items=[dict(kind=x.kind, frame=x.bytes[:60].decode("latin-1")) for x in runs[0].items], events=runs[0].trace["ev"]))
    report(ck, rej, "session with a broken frame")
    default_limit(ck, w)


def default_limit(ck, w):
    """The limit is 1 GiB unless reconfigured: both sides of it on the real program."""
    for n, refused in ((2**30, False), (2**30 + 1, True)):
        for attempt in range(2):
            b = Backend([w.backend, "-log", "", "-org", w.notes])
            b.write(frame(dict(id=1, method="hello", params=[hello_params("1")])))
            b.wait(lambda: b.frames or b.eof, 10)
            b.write(struct.pack("=I", n))
            done = b.wait_exit(5 if refused else 0.5)
            n1, rc = len(b.frames), b.exit
            if not refused and not done:
                b.close_in()
                end = b.wait_exit(10)
                rc = b.exit
            else:
                end = done
            b.kill()
            ok = done == refused and n1 == 1 and end and rc == 0
            ck.traces += 1
            if ok:
                break
        if not ok:
            ck.violation("frame of declared length %d: %s" % (n, "not refused" if refused else "refused or crashed"),
                         dict(length=n, exited=done, responses=n1, status=rc))

"""C10: unreadable notes give errors, never partial answers."""
import concurrent.futures, random
from gate import *

STATUSES = ["ok", "nolinks", "missing", "dir", "noperm", "loop", "notdir", "longname", "long0", "longmid", "longend", "wide", "badbytes"]


def make(r, d, f, st):
    """File in state st; returns configured name, judged status, links, whether org."""
    org = r.random() < 0.7
    p = os.path.join(d, "n%d.%s" % (f, "org" if org else "txt"))
    urls = ["https://f%d.example/%s" % (f, x) for x in "abcdefghij"[:r.choice([1, 3, 10])]]
    lines = []
    for k, u in enumerate(urls):
        if org and r.random() < 0.4:
            lines.append("*" * r.choice([1, 2, 3]) + " heading %d" % k)
        lines.append("text %s end" % u)
        if r.random() < 0.3:
            lines.append("")
    big = r.choice([70000, 65536 + 10, 65536, 65537, 70001, 140000])

    def long():
        u = "https://f%d.example/long" % f
        urls.append(u)
        return r.choice(["x " * (big // 2) + u, u + " " + "y " * (big // 2), "w" * big + " " + u])
    if st == "nolinks":
        lines, urls = r.choice([[], ["text"], ["* heading", "text"]]), []
    elif st == "long0":
        lines.insert(0, long())
    elif st == "longmid":
        lines.insert(len(lines) // 2 + 1, long())
    elif st == "longend":
        lines.append(long())
    elif st == "wide":
        lines.insert(r.randrange(len(lines) + 1), "z" * r.choice([30000, 60000, 64000, 65000, 65300, 65530, 65534]))
    data = ("\n".join(lines) + ("\n" if r.random() < 0.7 else "")).encode()
    if st == "badbytes":
        data = b"\xff\xfe \x80\n" + data + b"\n\xc3"
    name = p
    if st == "dir":
        os.mkdir(p)
    elif st == "loop":
        os.symlink(p, p)
    elif st == "notdir":
        with open(p, "w") as fp:
            fp.write("https://never.example/")
        name = os.path.join(p, "x")
    elif st == "longname":
        name = os.path.join(d, "l" * 300)
    elif st != "missing":
        with open(p, "wb") as fp:
            fp.write(data)
        if st == "noperm":
            os.chmod(p, r.choice([0, 0o200, 0o300]))
    bad = st in ("missing", "dir", "noperm", "loop", "notdir", "longname")
    return name, ("bad" if bad else "long" if st.startswith("long") else "ok"), ([] if bad else urls), org


def natural(ck, k, statuses):
    r = random.Random("c10/%d/%d/%s" % (ck.seed, k, statuses))
    d = os.path.join(ck.dir("n"), "c%d" % k)
    os.mkdir(d)
    files = [make(r, d, f, st) for f, st in enumerate(statuses)]
    os.chmod(d, 0o755)
    urls = sorted({u for x in files for u in x[2]} | {"https://f%d.example/%s" % (f, x) for f in range(4) for x in "abclong"})
    kinds = r.choice(["MLOEM", "LMOLE", "EMOML", "OLLMM", "MMLLO", "MEOLM"])
    reqs = []
    for q in kinds:
        reqs.append(dict(M=("burl.urlMentions", [dict(variants=urls, options=dict(countLimit=10000))]), L=("burl.linkSet", [dict(prefix=["https:"])]),
                         E=("linkremark.urlMentions", [dict(variants=r.choice([[], [""], ["", ""]]))]), O=("hello", [hello_params("0.3")]))[q])
    argv = [ck.backend(), "-log", ""]
    for n, _, _, org in files:
        argv += ["-org" if org else "-txt", n]
    res, rc, extra = calls(argv, reqs, timeout=60, user=65534)
    answers = []
    for q, a in zip(kinds, res):
        if a is None:
            break
        err = a.get("error") is not None
        x = dict(k=q, err=err, clean=a.get("result") in (None, False, {}), urls=[], total=0)
        if not err and q == "M":
            o = mention(a)
            x["total"] = o["total"]
            walk_urls(o, x["urls"])
        if not err and q == "L":
            x["urls"] = [str(u) for u in a["result"].get("urls") or []]
        x["urls"] = sorted(set(x["urls"]))
        answers.append(x)
    return dict(files=[dict(st=s, links=l) for _, s, l, _ in files], answers=answers, asked=len(kinds), ended=rc == 0 and not extra, what=dict(statuses=statuses, kinds=kinds, rc=rc))


ERRS = dict(open=[13, 2, 24, 5, 40, 1, 23], read=[5, 21, 12, 9])


def faulty(ck, k, fault):
    """A gated session where the fault-th operation fails."""
    r = random.Random("c10f/%d/%d" % (ck.seed, k))
    s = Scene(ck, "f%d" % k, r, r.choice([1, 2, 3]), 2, reads=True, size=r.choice([3, 8, 150]))
    g = s.g
    plan = r.choice(["M", "L", "ML", "LM", "MM", "MML", "OML", "LLM"])
    n = 0
    for a in plan:
        s.send(a)
        g.quiet()
    more = list("MLOEML"[:r.choice([0, 2, 6])])
    end = time.time() + SLOW
    while time.time() < end:
        with g.lock:
            st = list(g.stops)
        notes = [x for x in st if s.file(x) is not None]
        if st and not notes:
            s.grant(st[0])
            continue
        if notes:
            n += 1
            x = r.choice(notes)
            bad = n == fault or (fault == 0 and r.random() < 0.15) or (n > fault > 0 and r.random() < 0.03)
            if bad and r.random() < 0.3:
                # other operations work while the load is about to fail
                if not s.probe("O", st):
                    break
            s.grant(x, r.choice(ERRS[x.op]) if bad else 0)
        elif all(q["frame"] for q in s.reqs.values()):
            if not more:
                break
            s.send(more.pop(0))
        elif g.eof:
            break
        else:
            with g.lock:
                if not g.stops and not g.eof:
                    g.lock.wait(0.02)
    s.finish()
    s.close()
    t = s.trace()
    t["plan"] = [plan, fault]
    t["faults"] = s.faults
    return t


def check(ck):
    ck.design("Snapshot", "SnapshotLive.cfg")
    if ck.thorough:
        ck.design("Snapshot", "Snapshot.cfg")
    ck.build_yield("burl_backend")
    ck.native("opengate")
    r = ck.rng
    g = ck.tlc("LoadGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Statuses = {%s}\n MaxFiles = %d\n" % (", ".join('"%s"' % s for s in STATUSES), 3), workers=1)
    configs = sorted(list(p["files"] or []) for p in g.printed)
    short = [c for c in configs if len(c) <= 2]
    rest = [c for c in configs if len(c) > 2]
    configs = short + (rest if ck.thorough else r.sample(rest, 220))
    configs += [[r.choice(["ok", "ok", "ok", "wide", "badbytes", r.choice(STATUSES)]) for _ in range(r.choice([4, 6]))] for _ in range(ck.n(40, 400))]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(lambda a: natural(ck, *a), enumerate(configs)))
    ck.details["configurations"] = len(cases)
    info = [c.pop("what") for c in cases]
    for c, why in ck.judge("LoadJudge", cases, shards=4):
        ck.violation("unreadable notes: %s" % why["what"], dict(info=info[c["id"] - 1], files=c["files"], answers=c["answers"]))
    if ck.viol:
        return
    faults = [k % 13 for k in range(ck.n(220, 3000))]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        traces = list(ex.map(lambda a: faulty(ck, *a), enumerate(faults)))
    ck.details["injected_faults"] = sum(t["faults"] for t in traces)
    ck.sample(dict(plan=traces[3]["plan"], events=[dict(e, q=(e.get("q") or [])[:3], urls=(e.get("urls") or [])[:3]) for e in traces[3]["ev"]][:12]))
    for t, info in ck.accept("SnapshotTrace", traces):
        ck.violation("session with failing reads %s is not explained by the specification at event %s" % (t["plan"], info["event_no"]),
                     dict(plan=t["plan"], event=info["event"], events=[dict(e, q=(e.get("q") or [])[:8], urls=(e.get("urls") or [])[:12]) for e in t["ev"][:info["event_no"]]]))

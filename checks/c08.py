"""C08: count limit bounds what is shown and never falsifies the counts."""
import concurrent.futures, random
from session import *
from notes import *

LIMITS = [None, "nullopt", 0, -1, -5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30, 50, 100, 2**31 - 1, 2**31, 2**53, 2**62, 2**63 - 1, -2**63]


def eff(l):
    if l is None or l == "nullopt":
        return 8
    return max(-2**31 + 1, min(2**31 - 1, l))


def one(ck, num, seed, limits):
    r = random.Random(seed)
    d = ck.dir("d%d" % num)
    docs = []
    for k in range(r.choice([1, 1, 2, 3, 6])):
        pool = ["https://h%d.example/%s" % (k if r.random() < 0.5 else 0, x) for x in (list("abcd")[:r.choice([1, 2, 4])] if r.random() < 0.8 else range(30))]
        txt = r.random() < 0.15
        if not txt and r.random() < 0.12:
            docs.append(wide_doc(r, os.path.join(d, "n%d.org" % k), pool, r.choice([20, 70, 140]), r.choice([1, 2, 4])))
            continue
        docs.append(rand_doc(r, os.path.join(d, "n%d.org" % k), pool, n=r.choice([3, 8, 15, 30, 60]), maxlvl=r.choice([1, 2, 3, 4]), txt=txt, plink=r.choice([0.2, 0.4, 0.6])))
    allu = sorted({l["url"] for x in docs for ln in x.lines for l in ln["links"]})
    if not allu:
        docs[0].body(r, ["https://h0.example/a"])
        docs[0].write()
        allu = ["https://h0.example/a"]
    qs = [allu, r.sample(allu, min(len(allu), 2)), ["https://absent.example/"]]
    reqs = []
    for l in limits:
        q = qs[0] if r.random() < 0.7 else r.choice(qs)
        p = {"variants": q}
        if l == "nullopt":
            p["options"] = None
        elif l is not None:
            p["options"] = {"countLimit": l}
        reqs.append((q, l, p))
    res, rc, extra = calls([ck.backend(), "-log", ""] + fargs(docs), [("burl.urlMentions", [p]) for q, l, p in reqs])
    return [dict(prop="C08", files=[x.model() for x in docs], q=q, limit=eff(l), out=mention(a), asked=str(l)) for (q, l, p), a in zip(reqs, res)]


def many(ck):
    """More than thousand of links and groups."""
    r = ck.rng
    d = ck.dir("many")
    pool = ["https://h.example/%d" % k for k in range(10)]
    few = Doc(os.path.join(d, "few.org"))
    few.heading(r, 1, "H", [])
    for k in range(6):
        few.body(r, [pool[k % 2]] * 200)
    few.write()
    wide = Doc(os.path.join(d, "wide.org"))
    for k in range(105):
        wide.heading(r, 1 + k % 2, "H%d" % k, [])
        wide.body(r, pool)
    wide.write()
    out = []
    for docs, q, limits in (([few], pool[:2], [2, 3000]), ([wide, few], pool, [1001, 5000]), ([wide], pool, [None, 1025, 2**31])):
        reqs = [[dict({"variants": q}, **({} if l is None else {"options": {"countLimit": l}}))] for l in limits]
        res, rc, extra = calls([ck.backend(), "-log", ""] + fargs(docs), [("burl.urlMentions", p) for p in reqs])
        out += [dict(prop="C08", files=[x.model() for x in docs], q=q, limit=eff(l), out=mention(a), asked=str(l)) for l, a in zip(limits, res)]
    return out


def check(ck):
    ck.design("CountLimit", "CountLimit.cfg" if not ck.thorough else "CountLimitBig.cfg")
    ck.build_yield("burl_backend")
    cases = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = []
        for k in range(ck.n(60, 700)):
            if k % 3 == 0:
                lim = LIMITS
            else:
                lim = [ck.rng.choice([None] + list(range(1, 25))) for _ in range(8)] + ck.rng.sample(LIMITS, 4)
            jobs.append(ex.submit(one, ck, k, "c08/%d/%d" % (ck.seed, k), lim))
        for j in jobs:
            cases += j.result()
    # more links than any limit
    cases += many(ck)
    ck.sample(dict(q=cases[5]["q"], limit=cases[5]["asked"], out=cases[5]["out"]))
    ck.details["queries"] = len(cases)
    for c, why in ck.judge("Mentions", cases)[:6]:
        ck.violation("mentions with limit %s: %s" % (c["asked"], why["what"]),
                     dict(q=c["q"], limit=c["asked"], out=c["out"], files=[dict(path=f["path"], lines=[[k + 1, l] for k, l in enumerate(f["lines"]) if l["links"] or l["lvl"]]) for f in c["files"]]))

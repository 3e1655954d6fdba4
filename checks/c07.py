"""C07: each mention is shown under exactly its enclosing headings."""
import concurrent.futures, random
from session import *
from notes import *


def small(ck, outlines, base):
    """Every outline of the enumeration as a file of its own; answers split by files."""
    d = ck.dir("o%d" % base)
    docs, urls = [], []
    r = random.Random(base)
    for k, o in enumerate(outlines):
        doc = Doc(os.path.join(d, "f%05d.org" % k))
        for j, lvl in enumerate(o):
            u = "https://x.example/%d/%d" % (k, j)
            if lvl == 0:
                doc.body(r, [u])
                urls.append(u)
            else:
                # some headings carry a link themselves
                own = [u] if (k + j) % 5 == 0 else []
                urls += own
                doc.heading(r, lvl, "H%d" % j, own, ["", " "][j % 2])
        doc.write()
        docs.append(doc)
    res, rc, extra = calls([ck.backend(), "-log", ""] + fargs(docs),
                           [("burl.urlMentions", [{"variants": urls, "options": {"countLimit": 1000000}}])], timeout=60)
    out = mention(res[0])
    cases = []
    if out["t"] == "File":
        nodes = {out["path"]: out}
    else:
        nodes = {}
        for n in out["ch"]:
            nodes.setdefault(n["path"], n)
    # queried are all the URLs of all the files; a short list stands for it
    for k, doc in enumerate(docs):
        q = [l["url"] for ln in doc.lines for l in ln["links"]]
        cases.append(dict(prop="C07", files=[doc.model()], q=q, limit=1000000,
                          out=nodes.get(doc.path, dict(ERROR, t="FileGroup"))))
    return cases


def big(ck, num, seed):
    r = random.Random(seed)
    d = ck.dir("d%d" % num)
    docs = []
    for k in range(r.choice([1, 1, 2, 3])):
        pool = ["https://h%d.example/%s" % (k, x) for x in "abcdefgh"]
        docs.append(rand_doc(r, os.path.join(d, "n%d.org" % k), pool, n=r.choice([10, 30, 60]), maxlvl=r.choice([2, 4, 9]), plink=0.4))
    allu = sorted({l["url"] for x in docs for ln in x.lines for l in ln["links"]})
    if not allu:
        docs[0].body(r, ["https://h0.example/a"])
        docs[0].write()
        allu = ["https://h0.example/a"]
    qs = [allu] + [r.sample(allu, min(len(allu), r.choice([1, 2, 3]))) for _ in range(3)]
    res, rc, extra = calls([ck.backend(), "-log", ""] + fargs(docs),
                           [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}]) for q in qs])
    return [dict(prop="C07", files=[x.model() for x in docs], q=q, limit=100000, out=mention(a)) for q, a in zip(qs, res)]


def check(ck):
    ck.design("Outline", "Outline.cfg" if not ck.thorough else "OutlineBig.cfg")
    ck.build_yield("burl_backend")
    gens = [("{1, 2, 3}", 5)] if not ck.thorough else [("{1, 2, 3}", 6), ("{1, 2, 3, 5}", 5)]
    outlines = []
    for lv, mx in gens:
        g = ck.tlc("OutlineGen", "INIT GInit\nNEXT GNext\nCONSTANTS\n GLevels = %s\n GMax = %d\nCHECK_DEADLOCK FALSE\n" % (lv, mx), workers=1)
        outlines += [p["d"] for p in g.printed]
    outlines = [list(x) for x in sorted({tuple(o) for o in outlines})]
    ck.details["outlines_enumerated"] = len(outlines)
    cases = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        step = 100
        jobs = [ex.submit(small, ck, outlines[k:k + step], k) for k in range(0, len(outlines), step)]
        jobs += [ex.submit(big, ck, k, "c07/%d/%d" % (ck.seed, k)) for k in range(ck.n(60, 800))]
        for j in jobs:
            cases += j.result()
    ck.sample(dict(q=cases[500]["q"], lines=cases[500]["files"][0]["lines"], out=cases[500]["out"]))
    for c, why in ck.judge("Mentions", cases)[:6]:
        ck.violation("mentions of %s: %s" % (json.dumps(c["q"])[:200], why["what"]),
                     dict(q=c["q"], out=c["out"], files=[dict(path=f["path"], lines=[[k + 1, l] for k, l in enumerate(f["lines"]) if l["links"] or l["lvl"]]) for f in c["files"]]))

"""C06: mentions report exactly the links equivalent to the queried URLs."""
import concurrent.futures
from session import *
from notes import *

HOSTS = ["a.example", "b.example", "xn--e1aybc.example", "\u043f\u0440\u0438\u043c\u0435\u0440.\u0440\u0444", "A.example"]
PATHS = ["", "/", "/p", "/p/", "/p//", "/P", "/p/q", "/p?", "/p/?", "/p?x", "/p?x&", "/p?x&&", "/p?&", "/p#", "/p/?&#", "/p?#", "/p&#", "/p/#/", "/p#f", "/p##",
         "/p?x=1#", "/p?x=1&y#", "/p//?&&#", "/\u0440", "/p??", "/p&", "/p&&?", "/p/&", "/p%20/", "/~u", "/%7Eu", "/index.html", "////", "/p/////?&&&&&#", "/p?utm_source=x", "/p\ufffd", "/\ufffd/", "/p?x/", "/p/?/", "?", "#", "/?&&&#", "/\U0001f600/", "/\u0440//?#"]
PLAINABLE = ["", "/", "/p", "/p/", "/p//", "/P", "/p/q", "/\u0440", "/p%20/", "/a.b", "/p,q", "/~u"]


def plain(u):
    """May be in a text file."""
    return "://" in u and any(u.endswith(".example" + p) or u.endswith("\u0440\u0444" + p) for p in PLAINABLE)


def pool(r, txt=False):
    out = []
    for s in ("http", "https", "https", "http"):
        for h in r.sample(HOSTS[:4] if txt else HOSTS, 2):
            for p in r.sample(PLAINABLE if txt else PATHS, 8 if not txt else 6):
                out.append("%s://%s%s" % (s, h, p))
    if not txt:
        if r.random() < 0.2:
            out += ["https://a.example/" + "long/" * r.choice([110, 500]) + t for t in ("", "/", "#", "x")] * 2
        out += ["doi:10.1000/182/", "doi:10.1000/182", "mid:x@a.example", "mid:x@a.example#", "https:x", "http:x"]
    return out


TAILS = ["", "/", "?", "#", "&", "/?", "/?&#", "//", "&&", "??", "/#", "?#", "&#", "?&&#", "#/", "/&", "##", "?/"]
MANY = ["////", "/////?&&&&&#", "///////", "??????", "######", "&&&&&&&&&&", "/" * 70, "?#" * 9, "///?&&&##"]


SIMILAR = [lambda u: u.replace("~", "%7E"), lambda u: u.replace("%20", " "), lambda u: u.replace("/p", "/%70"), lambda u: u.replace("://", "://www."), lambda u: u.replace("://www.", "://"),
                     lambda u: u.replace(".example", ".example:443"), lambda u: u.replace(".example", ".example:80"), lambda u: u.rstrip("/") + "/index.html", lambda u: u.replace("A.example", "a.example"),
                     lambda u: u.replace("a.example", "A.Example"), lambda u: u.rstrip("?&#/") + "?utm_source=x", lambda u: u.rstrip("?&#/") + "&utm_medium=y", lambda u: u.replace("://", "://user@"),
                     lambda u: u.replace("/p", "//p"), lambda u: u.replace("/p", "/./p"), lambda u: u.replace("/p", "/x/../p"), lambda u: u + "%20", lambda u: u + "+", lambda u: u.replace("://", ":/"),
                     lambda u: u.replace("\u043f\u0440\u0438\u043c\u0435\u0440.\u0440\u0444", "xn--e1afmkfd.xn--p1ai"), lambda u: u.replace("\u0440", "%D1%80"), lambda u: u.replace("%20", "+"), lambda u: u + ".", lambda u: u + ":"]


def similar(r, u):
    """Looks like the same resource, but is another URL."""
    return r.choice(SIMILAR)(u)


def queries(r, urls, n):
    for _ in range(n):
        q = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            u = r.choice(urls)
            x = r.random()
            if x < 0.35:
                u = u.rstrip("/?&#") + r.choice(TAILS)
            elif x < 0.5:
                u = ("http" + u[5:]) if u.startswith("https") else ("https" + u[4:]) if u.startswith("http:") else u
            elif x < 0.63:
                u += r.choice(TAILS)
            elif x < 0.65:
                u += r.choice(MANY)
            elif x < 0.82 and x > 0.73:
                u = similar(r, u)
            elif x < 0.68:
                u = r.choice([" " + u, u + " ", u + "\n", "\t" + u, u + "\r\n", "\n" + u + "\n", u + "\u00a0", "<%s>" % u])
            elif x < 0.73:
                u = r.choice(["https:", "http:", u.upper(), u[:-1], u + "x", u[1:], "HTTP:" + u[5:], "xhttp:" + u, "ftp" + u[4:], "#", "?", "///", "mailto:a@b", "httpss" + u[5:]])
            q.append(u)
        if r.random() < 0.06:
            # the only URL of interest among lots of others
            more = ["https://other.example/%d" % k for k in range(r.choice([10, 40, 300]))]
            k = r.choice([0, len(more), r.randrange(len(more))])
            q = more[:k] + q + more[k:]
        if r.random() < 0.15:
            q.insert(r.randrange(len(q) + 1), "")
        yield q


def one(ck, num, ndocs, nq, seed):
    import random
    r = random.Random(seed)
    d = ck.dir("d%d" % num)
    docs, allurls = [], []
    for k in range(ndocs):
        txt = r.random() < 0.3
        ps = r.sample(pool(r, txt), 14)
        allurls += ps
        if k and r.random() < 0.08:
            docs.append(docs[-1])     # the same file configured twice
            continue
        if not txt and r.random() < 0.12:
            docs.append(wide_doc(r, os.path.join(d, "n%d.org" % k), ps, r.choice([70, 140, 300]), r.choice([1, 2])))
            continue
        docs.append(rand_doc(r, os.path.join(d, "n%d.%s" % (k, "t\u0445t" if txt else "org")), ps, n=r.choice([1, 5, 12, 25]), txt=txt))
    if not any(l["links"] for x in docs for l in x.lines):
        docs[0].body(r, ["https://a.example/p"])
        docs[0].write()
    qs = list(queries(r, allurls, nq))
    res, rc, extra = calls([ck.backend(), "-log", ""] + fargs(docs),
                           [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}]) for q in qs])
    return [dict(prop="C06", files=[x.model() for x in docs], q=q, limit=100000, out=mention(a)) for q, a in zip(qs, res)]


def check(ck):
    ck.design("Outline", "Outline.cfg")
    ck.build_yield("burl_backend")
    cases = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for cs in ex.map(lambda k: one(ck, k, ck.rng.choice([1, 1, 2, 3]), ck.n(12, 25), "c06/%d/%d" % (ck.seed, k)), range(ck.n(60, 900))):
            cases += cs
    # all combinations of tails on a small alphabet: query tail x link tail
    T = ["", "/", "#", "?", "&", "//", "/?", "?&", "&#", "?#", "/#", "&&", "?&#", "/?#", "/?&", "/?&#", "//?&&#", "#/", "&?", "?/", "##", "??", "/&", "&/", "x/"]
    d = Doc(os.path.join(ck.dir("tails"), "n.org"))
    for s in ("http", "https", "ftp"):
        for t in T:
            d.body(ck.rng, ["%s://h.example/a%s" % (s, t)])
    d.write()
    qs = [["%s://h.example/a%s" % (s, t)] for s in ("http", "https", "ftp") for t in T]
    for args in ([], ["-scheme", "ftp"]):
        m = d.model()
        if not args:
            m = dict(m, lines=[dict(l, links=[x for x in l["links"] if not x["url"].startswith("ftp")]) for l in m["lines"]])
        res, rc, extra = calls([ck.backend(), "-log", ""] + args + fargs([d]),
                               [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}]) for q in qs])
        cases += [dict(prop="C06", files=[m], q=q, limit=100000, out=mention(a)) for q, a in zip(qs, res)]
    # every kind of similar URL in notes and in queries
    for k, base in enumerate(["https://a.example/~u/p%20/", "http://A.example/p", "https://www.a.example", "https://a.example/\u0440?x=1", "https://a.example:443/p/p"]):
        alike = sorted({f(base) for f in SIMILAR} | {base})
        d = Doc(os.path.join(ck.dir("alike%d" % k), "n.org"))
        for u in alike:
            if "://" in u and " " not in u:
                d.body(ck.rng, [u, u.replace("https:", "http:") if u.startswith("https:") else u.replace("http:", "https:")], "see")
        d.write()
        res, rc, extra = calls([ck.backend(), "-log", ""] + fargs([d]), [("burl.urlMentions", [{"variants": [q], "options": {"countLimit": 100000}}]) for q in alike])
        cases += [dict(prop="C06", files=[d.model()], q=[q], limit=100000, out=mention(a)) for q, a in zip(alike, res)]
    # long files
    for k in range(ck.n(1, 4)):
        ps = ck.rng.sample(pool(ck.rng), 10)
        d = tall_doc(ck.rng, os.path.join(ck.dir("tall%d" % k), "n.org"), ps)
        qs = [ps, ps[:1], ps[1:4]]
        res, rc, extra = calls([ck.backend(), "-log", ""] + fargs([d]),
                               [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}]) for q in qs])
        cases += [dict(prop=p, files=[d.sparse()], q=q, limit=100000, out=mention(a)) for p in ("C06", "C07") for q, a in zip(qs, res)]
    ck.sample(dict(q=cases[0]["q"], out=cases[0]["out"]))
    ck.details["queries"] = len(cases)
    ck.details["nonempty_answers"] = sum(1 for c in cases if c["out"]["total"] > 0)
    for c, why in ck.judge("Mentions", cases)[:6]:
        ck.violation("mentions of %s: wrong %s" % (json.dumps(c["q"]), why["what"]),
                     dict(q=c["q"], out=c["out"], files=[dict(path=f["path"], links=[[k + 1, l] for k, l in enumerate(f["lines"]) if l["links"]]) for f in c["files"]]))

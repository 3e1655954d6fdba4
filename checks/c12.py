"""C12: link set queries outside of the permitted form. The real program only."""
import concurrent.futures, random
from linkset import *

DOC = [["secret line passw0rd:x", "see https://a.example/x and mailto:me@x.example", "[[https://b.example/][d]] <mid:q@w>", "h:x h.1:y h+1:zz h:.*z"], ["tel:123-45 https://c.example/", "h:xy secret"]]
GOODP = ["https", "http:", "mid", "https://a", "h", "H", "x-a", "git+ssh:", "a1", "https:.*", "https:a\tb", "https:\u0436", "z39-50r:", "https::", "https://a" + "x" * 400]
BADP = ["", ":", ".*", ".*:", "(?s).*:", "https|.*", "https\n", "https:\nx", "\nhttps", "1a", "-a", " https", "https ", "ht tps:", "[a-z]+", "[a-z]+:", "\\w+:", "https?", "\u0436:", "https\r:", "*", "+", "^", "$", "(", "[", "\\", "h(.)", "h:x\n", "|", "a|b", "//", "https\u2028:", "/https", "_a", "a_b"]


def check(ck):
    ck.design("LinkSetDesign", "LinkSetDesign.cfg" if not ck.thorough else "LinkSetDesignBig.cfg")
    ck.build_yield("burl_backend")
    g = ck.tlc("LinkSetGen", "INIT PInit\nNEXT PNext\nCONSTANTS\n MaxPref = %d\nCHECK_DEADLOCK FALSE\n" % ck.n(3, 4), workers=1)
    enum = [(text(p["p"]), p["ok"]) for p in g.printed]
    ck.details["prefixes_enumerated"] = len(enum)
    r = ck.rng
    qs = [[p] for p, ok in enum]
    qs += [[p] for p in GOODP + BADP]
    for good in GOODP:
        for n in (1, 2, 15, 16, 17, 18, 40):
            qs.append([good] * n)
    qs += [["https://a.example/" + "x" * 5000], ["https:" + "/" * 300, "mid"]]
    qs += [[], ["https"] * 16, ["https"] * 17, ["https"] * 1000]
    bad = [p for p, ok in enum if ok == "no"]
    for _ in range(ck.n(600, 6000)):
        n = r.choice([0, 1, 2, 3, 8, 15, 16, 17, 18])
        q = [r.choice(GOODP) for _ in range(n)]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if q:
                q[r.randrange(len(q))] = r.choice(BADP + r.sample(bad, 5))
        if r.random() < 0.1:
            q.insert(r.randrange(len(q) + 1), r.choice(BADP))
        qs.append(q)
    confs = [(["org", "txt"], True, qs), (["txt"], True, r.sample(qs, ck.n(300, 2000)) + [[], ["https"] * 16, ["https"] * 17]),
             (["org", "txt", "org", "org", "txt", "org"], False, r.sample(qs, 60) + [["https"], []]),
             (["org"], False, r.sample(qs, ck.n(150, 1000)) + [["https"], [], ["https"] * 16]), ([], True, r.sample(qs, ck.n(150, 1000)) + [["https"], [], ["https"] * 16, ["https"] * 17]), ([], False, r.sample(qs, 50) + [["https"], []])]
    jobs = []
    for kinds, enabled, part in confs:
        for k in range(0, len(part), 250):
            jobs.append((kinds, enabled, part[k:k + 250]))

    def one(job):
        kinds, enabled, part = job
        s = SetServer(ck, kinds, enabled)
        docs = [DOC[n % 2] for n in range(len(kinds))]
        out = [s.ask(docs, q, ["burl.linkSet", "linkremark.linkSet"][n % 2]) for n, q in enumerate(part)]
        s.close()
        return out
    cases = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, jobs):
            cases += o
    ck.sample(show(cases[-1], {}))
    for c, why in ck.judge("LinkSetJudge", cases, shards=6)[:6]:
        ck.violation("link set query: %s" % why["what"], show(c, why))

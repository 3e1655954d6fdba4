"""C11: link sets are sound, complete and free of duplicates. The real program only."""
import concurrent.futures, random
from linkset import *
from c25 import MISC

SCH = ["https", "http", "mid", "doi", "news", "ftp", "x-a", "git+ssh", "s", "HTTPS", "xhttps", "id", "file"]
MOREP = ["https://a.example/", "https://a.example/x", "https:", "http:", "mid:a", "https://a", "https://a.example/x_(y", "https:/", "https://a.example/\\", "https://a.example/x.", "https://\u043f\u0440.\u0440\u0444",
         "https://a.example/?q=1", "https://a.example/x*", "https://.*", "https:.", "http:x", "mid:", "https://A.example/", "https://a.example/x ", "https://a.example/[", "https://a.example/a\\]", "https://a.example/$", "https://a.example/(", "https://a.example/x+",
         "https://a.example/x|mid:", "https:\\", "https:(?i)", "https:^"]


def prefixes(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 5, 16])):
        k = r.random()
        out.append(r.choice(SCH) if k < 0.4 else r.choice(SCH) + ":" if k < 0.5 else r.choice(MOREP))
    return out


def small(ck, lines, k):
    r = random.Random("c11s/%d/%d" % (ck.seed, k))
    s = SetServer(ck, ["org", "txt"] if k % 3 else ["org"])
    cases = []
    step = 6
    for j in range(0, len(lines), step):
        part = lines[j:j + step]
        docs = [part] if k % 3 == 0 else [part, [l for l in r.sample(lines, 4)]]
        cases.append(s.ask(docs, r.choice([["http"], ["nw:", "http"], ["http:x"], ["http:x", "nw"], ["nw", "http:/"], ["http:http"]])))
    s.close()
    return cases


def rnd(ck, k, num):
    r = random.Random("c11/%d/%d" % (ck.seed, k))
    kinds = [r.choice(["org", "org", "txt"]) for _ in range(r.choice([1, 2, 3]))]
    s = SetServer(ck, kinds)
    cases = []
    for _ in range(num):
        docs = []
        for kind in kinds:
            docs.append([r.choice(MISC) if r.random() < 0.15 else txt_line(r).replace("\n", " ").replace("\r", " ") if kind == "txt" and r.random() < 0.4 else org_line(r, SCH) for _ in range(r.choice([0, 1, 3, 8, 20]))])
        if r.random() < 0.15:
            docs = [[spoil(r, l) if r.random() < 0.3 else l for l in ls] for ls in docs]
        c = s.ask(docs, prefixes(r), r.choice(["burl.linkSet", "linkremark.linkSet"]), r.choice(["\n", "\n", "\r\n"]), r.random() < 0.8)
        cases.append(c)
    s.close()
    return cases


def same(ck, k, num):
    """One file configured several times, as Org and as text."""
    r = random.Random("c11same/%d/%d" % (ck.seed, k))
    s = SetServer(ck, [["org", "txt"], ["txt", "org"], ["org", "txt", "org"], ["txt", "txt"]][k % 4], same=True)
    cases = []
    for _ in range(num):
        doc = [org_line(r, SCH) for _ in range(r.choice([1, 3, 8]))]
        cases.append(s.ask([doc] * len(s.kinds), prefixes(r)))
    s.close()
    return cases


def many(ck, n):
    """More links than any set is expected to have."""
    r = random.Random("c11m/%d" % ck.seed)
    s = SetServer(ck, ["org", "txt"])
    docs = [["[[https://h.example/%d][d]] and <http://h.example/%d> mid:x%d@h" % (k, r.randrange(n), k) for k in range(n)],
            ["https://h.example/t%d http://h.example/%d" % (k, k) for k in range(n)]]
    cases = [s.ask(docs, ["https", "http", "mid"]), s.ask(docs, ["mid:x"]), s.ask(docs, ["https:", "http"])]
    s.close()
    s = SetServer(ck, ["org"])
    docs = [[" ".join("mid:%d" % k for k in range(70)), "[[mid:x][" + "d" * 600 + "]] mid:y", "https://h.example/" + "p" * 2100]]
    cases += [s.ask(docs, ["https", "mid"])]
    s.close()
    return cases


def check(ck):
    ck.design("LinkSetDesign", "LinkSetDesign.cfg" if not ck.thorough else "LinkSetDesignBig.cfg")
    g = ck.tlc("OrgGen", "INIT DInit\nNEXT GNext\nCONSTANTS\n MaxTok = %d\n Mutant = \"none\"\nCHECK_DEADLOCK FALSE\n" % ck.n(3, 4), workers=1)
    lines = sorted({text(p["l"]) for p in g.printed})
    ctx = lines + [a + l + b for l in lines for a, b in [ck.rng.choice([("[[http:x", "x]]"), ("http:x", "x"), ("<http:x", ">"), ("", "http:xx"), ("[[http:x", ""), ("http:x [[", "")])]]
    ck.rng.shuffle(ctx)
    ck.details["lines_enumerated"] = len(ctx)
    ck.build_yield("burl_backend")
    cases = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        step = (len(ctx) + 15) // 16
        jobs = [ex.submit(small, ck, ctx[k:k + step], n) for n, k in enumerate(range(0, len(ctx), step))]
        jobs += [ex.submit(rnd, ck, k, ck.n(30, 150)) for k in range(ck.n(24, 80))]
        jobs += [ex.submit(same, ck, k, ck.n(12, 60)) for k in range(8)]
        for j in jobs:
            cases += j.result()
    cases += many(ck, ck.n(600, 3000))
    ck.sample(show(cases[-1], {}))
    for c, why in ck.judge("LinkSetJudge", cases, shards=8)[:6]:
        ck.violation("link set: %s" % why["what"], show(c, why))

"""C25: links of Org files follow the syntax. Exported API and the whole program."""
import concurrent.futures, os, random
from links import *
from notes import *
from session import *

# configured schemes: patterns given to the program and the schemes they mean
SCHEMES = [(["doi", "https?", "mid"], ["doi", "http", "https", "mid"]), (["https"], ["https"]), (["mid:", "news"], ["mid", "news"]), (["http", "nw"], ["http", "nw"]),
           (["ftp|https", "id"], ["ftp", "https", "id"]), (["s", "http"], ["s", "http"]), (["https?", "http"], ["http", "https"]), (["x-a", "git[+]ssh", "mid"], ["x-a", "git+ssh", "mid"])]
MISC = ["[[https://a.example/x][]]", "[[]]", "[[https://a.example/x]", "[[https://a.example/x][d]", "[[[https://a.example/x]]]", "[https://a.example/x]", "<https:>", "<https:a b>", "<https://a.example/x", "https:", "https:x", "https:xy",
        "[[https://a][https://b]]", "[[id:1][https://b.example/x]]", "[[id:1]] https://b.example/x", "[[a][b]] [[https://c.example/][d]]", "a]] https://b.example/x", "[[a https://b.example/x", "[[https://a.example/\\]]]", "[[https://a.example/\\\\]]", "[[https://a\\]b]]",
        "https://a.example/x https://a.example/x", "(https://a.example/x)", "(see https://a.example/x_(b))", "(https://a.example/x_(b).)", "https://a.example/x_(b", "https://a.example/x)b", "https://a.example/(((a)))", "https://a.example/b((a))", "https://a.example/x...", "https://a.example/x/.",
        "https://a.example/x, https://b.example/y; https://c.example/z!", "\u0436https://a.example/x", "1https://a.example/x", "_https://a.example/x", "-https://a.example/x", "https://a.example/\u0436\u2026", "https://a.example/x\u00bb", "|https://a.example/x|", "=https://a.example/x=", "~https://a.example/x~", "*https://a.example/x*",
        "[[https://a.example/x][d1]] [[https://b.example/y][d2]]", "[[https://a.example/x][d1] [[https://b.example/y][d2]]", "[[https://a.example/x][a]b]]", "[[https://a.example/x][a]]b]]", "[[https://a.example/x][[b]]]", "[[https://a.example/ x y][z]]", "<https://a.example/<b>>", "<mid:a@b> <mid:c@d>", "< https://a.example/x>", "<<https://a.example/x>>",
        "* https://a.example/h", "** TODO [[https://a.example/h][d]] :t:", "#+x: https://a.example/x", "# <https://a.example/x>", "https://https://a.example/x", "http:https://a.example/x", "HTTPS://a.example/x", "[[HTTPS://a.example/x]]", "[[ https://a.example/x]]", "[[file:https://a.example/x]]"]


def org_texts(ck, r, num):
    reqs = []
    for _ in range(num):
        pats, schemes = r.choice(SCHEMES) if r.random() < 0.6 else SCHEMES[0]
        lines = [org_line(r, schemes) if r.random() < 0.9 else r.choice(MISC) for _ in range(r.choice([1, 5, 20]))]
        reqs.append((pats, schemes, lines))
    return reqs


def check(ck):
    ck.design("OrgDesign", "OrgDesign.cfg" if not ck.thorough else "OrgDesignBig.cfg", workers=6)
    r = ck.rng
    g = ck.tlc("OrgGen", "INIT DInit\nNEXT GNext\nCONSTANTS\n MaxTok = %d\n Mutant = \"none\"\nCHECK_DEADLOCK FALSE\n" % ck.n(3, 4), workers=1)
    small = sorted({text(p["l"]) for p in g.printed})
    ck.details["lines_enumerated"] = len(small)
    # enumerated lines alone and inside of started links
    ctx = [l for l in small]
    wrap = [("[[http:x", "x]]"), ("[[http:x][", "]]"), ("http:x", "x"), ("http:x", " "), ("<http:x", ">"), ("", "http:xx"), ("[[http:x", ""), ("", "[[nw:x]]")]
    ctx += [a + l + b for l in small for a, b in (wrap if ck.thorough else [r.choice(wrap)])]
    reqs = [(["http", "nw"], ["http", "nw"], ctx[k:k + 60]) for k in range(0, len(ctx), 60)]
    reqs += [(p, s, MISC) for p, s in SCHEMES]
    reqs.append((["mid", "https"], ["mid", "https"], [" ".join("mid:%d" % k for k in range(70)), "[[mid:x][" + "d" * 600 + "]] mid:y", "https://a.example/" + "p" * 1200 + " mid:z"]))
    reqs += org_texts(ck, r, ck.n(300, 6000))
    q = []
    for pats, schemes, lines in reqs:
        # every line has its own heading, equal URLs of different lines do not meet
        q.append(dict(kind="org", text="".join("* h\n" + l + "\n" for l in lines), schemes=pats))
    res, rc, err = linkx(ck, q)
    cases = []
    for k, (pats, schemes, lines) in enumerate(reqs):
        if k >= len(res) or res[k]["err"]:
            ck.violation("text is not processed", dict(schemes=pats, lines=lines, rc=rc, stderr=err))
            return
        out = [[] for _ in lines]
        for l in res[k]["links"]:
            if l["n"] % 2 or not 1 < l["n"] <= 2 * len(lines):
                ck.violation("link has a wrong line number", dict(link=l, lines=lines))
                return
            out[l["n"] // 2 - 1].append([cps(l["u"]), cps(l["d"])])
        cases.append(dict(sch=[cps(s) for s in schemes], ls=[dict(l=cps(l), out=o) for l, o in zip(lines, out)], expect=False))
    ck.details["lines_judged"] = sum(len(c["ls"]) for c in cases)
    ck.sample(dict(lines=reqs[-1][2][:5], found=res[-1]["links"][:5]))
    for c, why in ck.judge("OrgJudge", cases, shards=8)[:6]:
        k = why["line"] - 1
        ck.violation("links of a line of an Org file", dict(schemes=[text(s) for s in c["sch"]], line=text(c["ls"][k]["l"]), found=[[text(a), text(b)] for a, b in c["ls"][k]["out"]], expected=[[text(a), text(b)] for a, b in why["want"]]))
    if ck.viol:
        return
    # the whole program
    exe = ck.build("burl_backend")
    sets = org_texts(ck, r, ck.n(32, 300))
    sets = [(p, s, [spoil(r, l) if r.random() < 0.05 else l for l in ls if not l.startswith("*")]) for p, s, ls in sets]
    exp = ck.compute("OrgJudge", [dict(sch=[cps(x) for x in s], ls=[dict(l=cps(l), out=[]) for l in ls], expect=True) for p, s, ls in sets])
    d = ck.dir("prog")

    def one(k):
        pats, schemes, lines = sets[k]
        rr = random.Random(k)
        path = os.path.join(d, "n%d.org" % k)
        model, out = [], []
        for l, e in zip(lines, exp[k]["links"]):
            if rr.random() < 0.3:
                model.append(dict(lvl=1, text="h%d" % len(model), links=[]))
                out.append("* h%d" % (len(model) - 1))
            model.append(dict(lvl=0, text="", links=[dict(url=text(u), descr=text(dd)) for u, dd in e]))
            out.append(l)
        with open(path, "wb") as f:
            f.write("".join(x + "\n" for x in out).encode("utf-8", "surrogateescape"))
        urls = list(dict.fromkeys(x["url"] for m in model for x in m["links"]))
        argv = [exe, "-log", ""]
        if pats != SCHEMES[0][0] or k % 2:
            for p in [""] + pats:
                argv += ["-scheme", p]
        argv += ["-org", path]
        # near misses: pieces of links and things that are not links
        toks = sorted({t for l in lines for t in l.replace("[", " ").replace("]", " ").split() if t})
        q = rr.sample(urls, min(len(urls), 15)) + rr.sample(toks, min(len(toks), 5)) + [u[:-1] for u in rr.sample(urls, min(len(urls), 3)) if len(u) > 1]
        q = q or ["https://none.example/"]
        if not urls:
            return None
        res, rc, extra = calls(argv, [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}])])
        return dict(prop="C06", files=[dict(path=path, lines=model)], q=q, limit=100000, out=mention(res[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = [c for c in ex.map(one, range(len(sets))) if c]
    for c, why in ck.judge("Mentions", cases)[:6]:
        ck.violation("mentions of links of an Org file: %s" % why["what"], dict(q=c["q"], out=c["out"], links=[[n + 1, l["links"]] for n, l in enumerate(c["files"][0]["lines"]) if l["links"]], text=open(c["files"][0]["path"], errors="replace").read()))

"""C26: URLs of plain text notes. Exported API and the whole program."""
import concurrent.futures, os, random
from links import *
from notes import *
from session import *


def program(ck, num, seed):
    """Texts through the program: what the specification finds is queried."""
    r = random.Random(seed)
    d = ck.dir("p%d" % num)
    docs = []
    for k in range(2):
        ls = [txt_line(r) for _ in range(r.choice([3, 12, 25]))]
        ls = [spoil(r, l.replace("\x00", "")) if r.random() < 0.1 else l.replace("\x00", "") for l in ls]
        t = "\n".join(ls) if r.random() < 0.5 else "\r\n".join(ls)
        t += r.choice(["", "\n", "\r\n", "\n\n"])
        p = os.path.join(d, "n%d.txt" % k)
        with open(p, "wb") as f:
            f.write(t.encode("utf-8", "surrogateescape"))
        docs.append((p, t))
    return docs


def check(ck):
    ck.design("TxtDesign", "TxtDesign.cfg" if not ck.thorough else "TxtDesignBig.cfg")
    r = ck.rng
    g = ck.tlc("TxtDesign", "INIT DInit\nNEXT GNext\nCONSTANTS\n MaxTok = %d\n Mutant = \"none\"\nCHECK_DEADLOCK FALSE\n" % ck.n(3, 4), workers=1)
    texts = sorted({text(p["l"]) for p in g.printed})
    ck.details["texts_enumerated"] = len(texts)
    if not ck.thorough:
        texts = r.sample(texts, 6000)
    # context around enumerated words
    texts += [r.choice(["x ", "\n", "(", "http://a.bb\n", "\t\n "]) + t + r.choice(["", "\n", "\r\n", "\nz.yy", " c.dd/"]) for t in r.sample(texts, min(len(texts), ck.n(1500, 20000)))]
    for _ in range(ck.n(2500, 40000)):
        ls = [txt_line(r) for _ in range(r.choice([1, 1, 2, 4]))]
        texts.append(r.choice(["\n", "\n", "\r\n", "\n\n"]).join(ls) + r.choice(["", "\n", "\r\n", " \n\n"]))
    # line numbers of a long text: the judge gets them less the number of empty lines
    texts.append("\n" * 140000 + "a.bb\n\nc.dd")
    texts.append("a.bb" + "/x" * 20000 + "\n" + "word " * 10000 + "\nc.dd\n")
    res, rc, err = linkx(ck, [dict(kind="txt", text=t, schemes=[]) for t in texts])
    cases = []
    for k, t in enumerate(texts):
        if k >= len(res) or res[k]["err"]:
            ck.violation("text is not processed", dict(text=t[:500], rc=rc, stderr=err))
            return
        out = [dict(u=cps(l["u"]), n=l["n"]) for l in res[k]["links"]]
        if t.startswith("\n" * 140000):
            t = t[140000:]
            out = [dict(x, n=max(0, x["n"] - 140000)) for x in out]
        if len(t) > 20000:
            # too long for the judge
            if [(len(l["u"]), l["n"]) for l in res[k]["links"]] != [(40004, 1), (4, 3)]:
                ck.violation("URLs of a long text", dict(links=[(l["u"][:50], l["n"]) for l in res[k]["links"]][:10]))
            continue
        cases.append(dict(l=cps(t), out=out, expect=False))
    ck.sample(dict(text=texts[-2][:200], found=res[-2]["links"][:5]))
    for c, why in ck.judge("TxtJudge", cases, shards=8)[:6]:
        ck.violation("URLs of a plain text note", dict(text=text(c["l"]), found=[(text(x["u"]), x["n"]) for x in c["out"]],
                                                       expected=[(text(x["u"]), x["n"], x["class"]) for x in why["want"]]))
    if ck.viol:
        return
    # the program
    num = ck.n(24, 200)
    sets = [program(ck, k, "c26/%d/%d" % (ck.seed, k)) for k in range(num)]
    exp = ck.compute("TxtJudge", [dict(l=cps(t), out=[], expect=True) for s in sets for p, t in s])
    ask = []
    for k, s in enumerate(sets):
        files, urls, may = [], [], set()
        for j, (p, t) in enumerate(s):
            lines = [dict(lvl=0, text="", links=[]) for _ in range(t.count("\n") + 1)]
            for x in exp[2 * k + j]["links"]:
                u = text(x["u"])
                if x["class"] == "may":
                    may.add(u)
                lines[x["n"] - 1]["links"].append(dict(url=u, descr=""))
                urls.append(u)
            files.append(dict(path=p, lines=lines))
        # optional URLs are not asked for, neither are URLs equivalent to them
        bad = {y for m in may for y in (m, m.rstrip("#&?/"), m.rstrip("/"))}
        urls = [u for u in dict.fromkeys(urls) if not any(u.startswith(b) or u.replace("https:", "http:", 1).startswith(b.replace("https:", "http:", 1)) for b in bad)]
        if urls:
            ask.append((files, r.sample(urls, min(len(urls), 12))))
    exe = ck.build("burl_backend")

    def one(a):
        files, q = a
        argv = [exe, "-log", ""]
        for f in files:
            argv += ["-txt", f["path"]]
        res, rc, extra = calls(argv, [("burl.urlMentions", [{"variants": q, "options": {"countLimit": 100000}}])])
        return dict(prop="C06", files=files, q=q, limit=100000, out=mention(res[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(one, ask))
    for c, why in ck.judge("Mentions", cases)[:6]:
        ck.violation("mentions from plain text files: %s" % why["what"], dict(q=c["q"], out=c["out"], files=[[f["path"], [[n + 1, l["links"]] for n, l in enumerate(f["lines"]) if l["links"]]] for f in c["files"]],
                                                                               texts=[open(f["path"], encoding="utf-8", errors="replace", newline="").read() for f in c["files"]]))

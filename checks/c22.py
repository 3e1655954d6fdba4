"""C22: repeatable options append to or replace their defaults as documented."""
import concurrent.futures, json, os, random, subprocess
from shell import *
from session import frame

DEFAULTS = {"scheme": ["doi", "https?", "mid"], "emacsarg": []}


def sequences(ck):
    gen = ck.tlc("MultiFlagDesign", 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n Values = {"", "a", "b"}\n MaxLen = %d\n MaxDefaults = 2\n Mutant = "discard"\n Gen = TRUE\n' % ck.n(5, 7))
    return [(p["defaults"] or [], p["given"] or []) for p in gen.printed]


def option_api(ck, seqs):
    r = ck.rng
    words = ["a", "b", "", "", "long " * 5, "\u0436", "-", "--x=y", "''", " ", "0"]
    seqs = seqs + [([r.choice(words[2:]) or "d" for _ in range(r.choice([0, 1, 3, 9, 17]))], [r.choice(words) for _ in range(r.choice([1, 3, 8, 20, 40]))]) for _ in range(ck.n(400, 5000))]
    p = vlib.run([ck.harness("multiflag")], input="\n".join(json.dumps(dict(defaults=d, given=g)) for d, g in seqs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    cases = vlib.objects(p.stdout)
    if len(cases) != len(seqs):
        ck.violation("the option crashes", dict(stderr=p.stderr.decode(errors="replace")[-800:], given=seqs[len(cases)]))
        return
    judge_flags(ck, cases)


def judge_flags(ck, cases):
    info = [c.pop("what", None) for c in cases]
    for c, why in ck.judge("MultiFlagJudge", cases, shards=6):
        d = dict(c, info=info[c["id"] - 1], expected=why["expected"])
        ck.violation("repeatable option: %s" % why["what"], d)


def lists(ck, seqs):
    """Effective lists of all four options as seen in wrappers and manifests."""
    jobs = []
    r = ck.rng
    short = [g for d, g in seqs if d == [] and len(g) <= ck.n(4, 5)]
    extra = [[r.choice(["", "a", "b", "c d", "e'f", "-"]) for _ in range(r.choice([5, 8, 12, 30]))] for _ in range(ck.n(30, 300))]
    extra += [[""] + [x for x in e if x] for e in extra] + [[x for x in e if x] for e in extra]
    for g in short + extra:
        for o in ("scheme", "emacsarg", "mozilla-extension", "chrome-extension"):
            jobs.append((o, g))
    if not ck.thorough:
        r.shuffle(jobs)
        jobs = jobs[:500]
    ext = {}
    d0 = ck.dir("def")
    for o, m, f in (("mozilla-extension", "-manifest-firefox", "f.json"), ("chrome-extension", "-manifest-chrome", "c.json")):
        vlib.run([ck.build("burl_backend"), m, os.path.join(d0, f)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            with open(os.path.join(d0, f)) as fp:
                x = json.load(fp)
        except (OSError, ValueError):
            jobs = [j for j in jobs if j[0] != o]       # this is for C21
            continue
        ext[o] = [strip(v) for v in x.get("allowed_extensions") or x.get("allowed_origins")]

    def one(a):
        k, (o, g) = a
        argv = [x for v in g for x in r2(k, o, v)]
        if o in ext:
            m, f = ("-manifest-firefox", "f.json") if o == "mozilla-extension" else ("-manifest-chrome", "c.json")
            path = os.path.join(ck.dir("m%d" % k), f)
            p = vlib.run([ck.build("burl_backend"), m, path] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            got = []
            if p.returncode == 0:
                with open(path) as fp:
                    x = json.load(fp)
                got = [strip(v) for v in x.get("allowed_extensions") or x.get("allowed_origins") or []]
            elif g and g[-1] == "" and g[0] == "":
                return None     # an empty list is refused for another reason (C21)
            return dict(kind="list", defaults=ext[o], given=g, list=got, refused=p.returncode != 0, what=o)
        w = Wrapper(ck, "l%d" % k)
        ok = w.install([os.fsencode(x) for x in argv], w.d)
        runs = []
        if ok:
            w.recorder()
            runs = w.start()
        return case(w, argv, w.d, ok, runs)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = [x for x in ex.map(one, enumerate(jobs)) if x]
    ck.details["option_lists"] = len(res)
    judge_flags(ck, [x for x in res if "kind" in x])
    judge(ck, [x for x in res if "kind" not in x])


def strip(v):
    return v[len("chrome-extension://"):-1] if v.startswith("chrome-extension://") and v.endswith("/") else v


def r2(k, o, v):
    return ["--%s=%s" % (o, v)] if (k + len(v)) % 2 else ["-" + o, v]


ENTRIES = ["doi", "https?", "mid", "http", "https", "x", "ftp", "gopher", "a?b", "ftp:", "HTTP", "ab", "s", "mi", "midx", "htt", "ttps", "doi:", ":", "ftps?", "b", "colou?r"]
SCHEMES = ["http", "https", "doi", "mid", "httpsx", "xhttp", "ftp", "sftp", "ftps", "x", "xx", "b", "ab", "aab", "HTTP", "gopher", "mi", "s", "midx", "htt", "color", "colour", "colouur", "idoi"]


def schemes(ck, k):
    r = random.Random("c22/%d/%d" % (ck.seed, k))
    links, lines = [], ["* Heading"]
    n = 0
    for s in SCHEMES:
        for form in range(4):
            n += 1
            # every address is unique, http and https variants of one address stay apart
            u = "%s://h%d.example/p" % (s, n)
            links.append(dict(scheme=s, url=u))
            lines.append(["[[%s]]", "see [[%s][d]] x", "<%s>", "text %s end"][form] % u)
    path = os.path.join(ck.dir("notes"), "n%d.org" % k)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    if k < len(ENTRIES):
        given = ["", ENTRIES[k]] if k % 2 else [ENTRIES[k]]
    else:
        given = [r.choice(ENTRIES) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        if r.random() < 0.5:
            given.insert(0 if r.random() < 0.9 else len(given), "")
    argv = [ck.build("burl_backend"), "-org", path] + [x for v in given for x in r2(k, "scheme", v)]
    data = frame(json.dumps(dict(id=1, method="burl.urlMentions", params=[dict(variants=[l["url"] for l in links], options=dict(countLimit=1000))])).encode())
    p = vlib.run(argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    urls, refused = [], p.returncode != 0
    if not refused:
        try:
            o = json.loads(p.stdout[4:])
            if o.get("error") is None:
                walk(o["result"], urls)
        except ValueError:
            urls = ["?"]
    return dict(kind="schemes", defaults=DEFAULTS["scheme"], given=given, links=links, urls=sorted(set(urls)), refused=refused, what=p.stderr.decode(errors="replace")[-300:])


def walk(n, urls):
    for l in n.get("links") or []:
        urls.append(l["url"])
    for c in n.get("children") or []:
        walk(c, urls)


def check(ck):
    ck.design("MultiFlagDesign", "MultiFlagDesign.cfg" if not ck.thorough else "MultiFlagDesignBig.cfg")
    ck.build("burl_backend")
    ck.harness("argvrec")
    ck.harness("multiflag")
    seqs = sequences(ck)
    ck.details["sequences"] = len(seqs)
    option_api(ck, seqs)
    if ck.viol:
        return
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(lambda k: schemes(ck, k), range(ck.n(120, 1200))))
    ck.sample(dict(given=cases[3]["given"], urls=cases[3]["urls"][:6]))
    judge_flags(ck, cases)
    if ck.viol:
        return
    lists(ck, seqs)

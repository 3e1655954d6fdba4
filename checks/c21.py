"""C21: manifests are consistent with the request or not written."""
import concurrent.futures, json, os, random, subprocess
from shell import *

NAMES = ["n", "io.github.x", "a b", "x.json", "it's", "\u0436", "-n", "n.", ".n", "A", "\u65e5\u672c", "..", ".", "a\\b", "<&>", "\u2028", "\"q\"", "a/b", "n.JSON", "%s", "n" * 60, "\udcff", "a\udce4b"]
FILES = ["n.json", "n.JSON", "n.jSoN", "n", "n.txt", ".json", "n.json.json", "json", "n.jsonx", "n.json ", "io.github.x.json", "a b.json", "it's.json", "\u0436.json", "n..json", "..json", "n.json.txt", "a\\b.json", "<&>.json", "\u2028.json", "\"q\".json", "io.github.maxnikulin.burl.json", "n.jso", "n.j", "N.json", "\u0130.json", "n.json\u200b", "n.\u017fjson", "n.j\u017fon", "-n.json", "x.json.json", "\u65e5\u672c.json", "%s.json", "n" * 60 + ".json", "\udcff.json", "a\udcc3.json", "n.js\udcefn"]
IDS = ["a@b", "abc", "", "", "{00-11}", "chrome-extension://xyz/", "chrome-extension:/", "\u0436@x", "a\"b", "<x>&", "a b", "mgmcoaemjnaehlliifkgljdnbpedihoe", "https://x/", "-x", "\u2028", "linkremark@maxnikulin.github.io", "\udcff@x"]
GIVEN = [([], 30), (["-log", "-"], 2), (["--log=-"], 1), (["-log", "l.log"], 3), (["-log="], 2), (["-emacsclient", "emacsclient"], 2), (["-emacsclient", ""], 2), (["-disable-link-set=false"], 2), (["-disable-link-set"], 2),
         (["-scheme", "ftp"], 2), (["-scheme", ""], 2), (["-emacsarg", ""], 2), (["-emacsarg", "x"], 2), (["-org", "n.org"], 2), (["--", "n.org"], 2), (["-txt=n.txt", "-log", "-"], 2), (["-log", "l.log", "-log", "-"], 3), (["-emacsarg", "x", "-emacsarg", ""], 1), (["-emacsclient", "ec", "-emacsclient=emacsclient"], 2), (["-disable-link-set", "-disable-link-set=0"], 2)]


def pairs(p):
    d = dict(p)
    if len(d) != len(p):
        raise ValueError("repeated keys")
    return d


def manifest(data, file, browser):
    """What is found, for the specification."""
    res = dict(file=enc(file), valid=False, name="", path="", type="", allowed=[], browser=browser)
    try:
        o = json.loads(data.decode("utf-8"), object_pairs_hook=pairs)
        key = dict(firefox="allowed_extensions", chrome="allowed_origins")
        has = [b for b in key if key[b] in o]
        if type(o) is dict and len(has) == 1 and all(type(o.get(k)) is str for k in ("name", "path", "type", "description")) and type(o[key[has[0]]]) is list and all(type(x) is str for x in o[key[has[0]]]):
            res.update(valid=set(o) == {"name", "path", "type", "description", key[has[0]]}, name=enc(o["name"]), path=enc(canon(o["path"])), type=o["type"], browser=has[0], allowed=[enc(x) for x in o[key[has[0]]]])
    except (ValueError, UnicodeEncodeError):
        pass
    return res


def canon(p):
    """The same file without symbolic links on the way."""
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)) if p.startswith("/") else p


def malformed(strings):
    res = set()
    for x in strings:
        try:
            os.fsencode(x).decode("utf-8")
        except UnicodeDecodeError:
            res.add(enc(x))
    return sorted(res)


def tree(d):
    res = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, "rb") as f:
                    res[p] = f.read()
    return res


def ids(r):
    n = r.choice([0, 0, 1, 1, 2, 3])
    v = [r.choice(IDS) for _ in range(n)]
    if r.random() < 0.25:
        v.insert(0, "")
    return v


def one(ck, k, plan=None):
    r = random.Random("c21/%d/%d" % (ck.seed, k))
    plan = plan or {}
    d = os.path.realpath(ck.dir("c%d" % k))
    exedir = r.choice(["bin"] * 4 + ["b'in", "\u0436", "b\udcff"])
    os.makedirs(os.path.join(d, exedir))
    exe = os.path.join(d, exedir, "burl_backend")
    os.link(ck.build("burl_backend"), exe)
    run = exe
    if r.random() < 0.2:
        run = os.path.join(d, "link_to_exe")
        os.symlink(os.path.join(exedir, "burl_backend"), run)
    cwd = os.path.join(d, "cwd")
    for x in ("cwd", "m", "m/sub.json", "m/my dir", "cwd/rel"):
        os.mkdir(os.path.join(d, x))
    os.symlink("m", os.path.join(d, "linkdir"))
    for f in ("cwd/n.org", "cwd/n.txt", "m/reg"):
        open(os.path.join(d, f), "w").close()
    name = plan.get("name", r.choice(["", "", r.choice(NAMES)]))
    given = plan.get("given", r.choices([g for g, _ in GIVEN], [w for _, w in GIVEN])[0])
    wk = plan.get("wrapper", r.choices(["none", "free", "bad", "self", "stdout"], [10, 8, 2, 2, 1])[0])
    wpath, warg = "", None
    if wk == "free":
        warg = r.choice(["w.sh", "rel/w", "./w'x", os.path.join(d, "m", "w"), os.path.join(d, "linkdir/w"), "../w", "w\udce9", "rel/../w$"])
        wpath = canon(os.path.normpath(os.path.join(cwd, warg)))
    elif wk == "bad":
        warg = r.choice(["rel", "absent/w", os.path.join(d, "m"), "n.org/w", os.path.join(d, "m", "reg", "w")])
    elif wk == "self":
        warg, wpath = exe, exe
    elif wk == "stdout":
        warg = "-"
    parts, argv, force = [], [], False
    for browser in plan.get("browsers", r.choice([["firefox"], ["chrome"], ["firefox", "chrome"]])):
        kind = plan.get("kind", r.choices(["dir", "file", "noparent", "stdout"], [6, 12, 1, 2])[0])
        t, a = "-", "-"
        taken = parts and (parts[0]["abs"] if parts[0]["kind"] == "dir" else os.path.dirname(parts[0]["abs"]))

        def free(t):
            """Manifests of two browsers in one directory may collide."""
            a = os.path.realpath(os.path.join(cwd, t))
            return a != taken and os.path.dirname(a) != taken
        if kind == "dir":
            t = r.choice(["rel", ".", os.path.join(d, "m"), os.path.join(d, "m") + "/", os.path.join(d, "linkdir"), os.path.join(d, "m", "sub.json"), "../m/my dir", "rel/.."])
            while not free(t):
                t = r.choice(["rel", os.path.join(d, "m/sub.json"), "../m/my dir", "."])
        elif kind == "noparent":
            t = r.choice(["absent/n.json", os.path.join(d, "m/reg/n.json"), os.path.join(d, "m", "absent") + "/"])
        elif kind == "file":
            f = plan.get("file") or r.choice(FILES if r.random() < 0.6 or not name or "/" in name else [name + ".json", name + ".JSON", name, "x" + name + ".json", name + "x.json"])
            t = r.choice(["", "./", "rel/", os.path.join(d, "m/"), os.path.join(d, "linkdir/"), "../m/my dir/"]) + f
            if t == "-" or os.path.isdir(os.path.join(cwd, t)) or t.startswith("-"):
                t = "./n.json"
            while not free(t):
                t = r.choice(["rel/", "./", os.path.join(d, "m/sub.json/"), "../m/my dir/"]) + (f if f not in ("n.json", ".", "..") else "n.json")
        if kind != "stdout":
            a = canon(os.path.normpath(os.path.join(cwd, t)))
            if kind == "dir":
                a = os.path.realpath(a)
            if kind == "file" and plan.get("exists", r.random() < 0.15) and a != wpath and a != exe:
                with open(a, "w") as fp:
                    fp.write("{}")
                force = True
        v = plan.get("ids") if "ids" in plan else ids(r)
        parts.append(dict(browser=browser, kind=kind, abs=a, ids=v))
        argv.append(["%smanifest-%s" % (r.choice(["-", "--"]), browser), t])
        o = {"firefox": "mozilla-extension", "chrome": "chrome-extension"}[browser]
        argv += [["--%s=%s" % (o, x)] if r.random() < 0.5 else ["-" + o, x] for x in v]
    if warg:
        argv.append(["-wrapper", warg] if r.random() < 0.5 else ["--wrapper=" + warg])
    if name:
        argv.append(["-backend", name] if r.random() < 0.5 else ["-backend=" + name])
    if force or r.random() < 0.2:
        argv.append(["-force"])
    # values of one option stay in order
    first = argv
    if r.random() < 0.5:
        groups = {}
        for x in argv:
            groups.setdefault(x[0].split("=")[0].lstrip("-"), []).append(x)
        keys = list(groups)
        r.shuffle(keys)
        first = [x for q in keys for x in groups[q]]
    args = [x for q in first for x in q] + given
    before = tree(d)
    p = vlib.run([run] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    after = tree(d)
    outs = [manifest(after[f], f, "?") for f in sorted(after) if after[f] != before.get(f) and f != wpath]
    if p.stdout and wk != "stdout":
        outs.append(manifest(p.stdout, "-", "?"))
    texts = [name, exe, wpath] + [x for q in parts for x in q["ids"]] + [os.path.splitext(os.path.basename(q["abs"]))[0] for q in parts]
    return dict(malformed=malformed(texts), given=[enc(x) for x in given], name=enc(name), exe=enc(exe), wrapper=dict(kind=wk, path=enc(wpath)),
                parts=[dict(q, abs=enc(q["abs"]), ids=[enc(x) for x in q["ids"]]) for q in parts], done=p.returncode == 0, outs=outs,
                what=dict(args=args, cwd=cwd, stderr=p.stderr.decode(errors="replace")[-300:], rc=p.returncode))


def check(ck):
    ck.design("ManifestDesign", "ManifestDesign.cfg")
    ck.build("burl_backend")
    plans = [dict(kind="file", file=f, name=n, given=[], wrapper="none", browsers=[b]) for n, f in enumerate(FILES) for b in ("firefox", "chrome")
             for n in ("", f[:-5] if f.lower().endswith(".json") and len(f) > 5 else "n", "zz") if "/" not in f]
    plans += [dict(kind="dir", name=n, given=[], browsers=[b]) for n in NAMES for b in ("firefox", "chrome")]
    plans += [dict(kind="stdout", name=n, given=[]) for n in NAMES]
    plans += [dict(given=g, wrapper=w, kind=k, name="") for g, _ in GIVEN for w in ("none", "free", "self", "bad", "stdout") for k in ("dir", "stdout")]
    plans += [dict(given=[], wrapper="none", kind=k, name="", ids=v, browsers=[b]) for b in ("firefox", "chrome") for k in ("dir", "stdout") for v in
              [[], [""], ["", ""], ["", "abc"], ["abc", ""], ["abc", "x"], ["", "abc", "x"], ["", "abc", ""], ["", "", "abc"], ["chrome-extension://xyz/"], ["abc", "abc"], [""] + ["i%d" % n for n in range(20)]]]
    plans += [None] * ck.n(900, 20000)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(lambda a: one(ck, *a), enumerate(plans)))
    ck.details["requests"] = len(cases)
    ck.details["refused"] = sum(not c["done"] for c in cases)
    ck.sample(dict(args=cases[-1]["what"]["args"], outs=cases[-1]["outs"]))
    info = [c.pop("what") for c in cases]
    for c, why in ck.judge("ManifestJudge", cases, shards=6, constants="CONSTANTS\n DefSchemes <- DS\n DefEmacsArgs <- DE\n AppName <- DA\n DefFirefox <- DF\n DefChrome <- DC\n"):
        ck.violation("manifest: %s" % why["what"], dict(c, info=info[c["id"] - 1]))

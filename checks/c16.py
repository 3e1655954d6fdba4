"""C16: hello: version of the offer and usable capabilities only."""
from api import *

VERS = ["", "0.2", "1", "v\u0434", "0", "null", "x" * 300]
FMT = ["org-protocol", "org-protocol", "org", "object", "", "Org-Protocol", "org-protocol ", "org"]


def check(ck):
    ck.design("Api", "Api.cfg")
    r = ck.rng
    world = ck.dir("w")
    notes = os.path.join(world, "n.org")
    with open(notes, "w") as f:
        f.write("* H\n[[https://a.example/x][d]]\n")
    txt = os.path.join(world, "n.txt")
    with open(txt, "w") as f:
        f.write("https://a.example/x\n")
    miss = os.path.join(world, "missing.org")
    cases, raw = [], []
    # all short lists of offers
    E = [dict(format=f, version=v) for f in ("org-protocol", "org", "") for v in ("", "0.2", "1")]
    lists = [[]] + [[a] for a in E] + [[a, b] for a in E for b in E]
    for _ in range(ck.n(150, 3000)):
        lists.append([dict(format=r.choice(FMT), version=r.choice(VERS)) for _ in range(r.randrange(0, 7))])
    for n in (9, 17, 40, 300):
        lists.append([dict(format=r.choice(FMT[2:]), version=r.choice(VERS)) for _ in range(n - 1)] + [dict(format="org-protocol", version="0.2")])
        lists.append([dict(format="org", version="0.%d" % k) for k in range(n)])
    confs = [(dict(files=True, linkset=True), [notes], []), (dict(files=True, linkset=False), [notes], []),
             (dict(files=False, linkset=True), [], []), (dict(files=False, linkset=False), [], []),
             (dict(files=True, linkset=True), [notes, notes], ["-scheme", "x"]), (dict(files=True, linkset=True), [miss], []),
             (dict(files=True, linkset=False), [notes, notes], []), (dict(files=True, linkset=False), [notes, notes, txt], ["-scheme", "y"])]
    for num, (cfg, files, extra) in enumerate(confs):
        for kind in (("org", "plain") if num < 2 else ("org",)):
            if kind == "plain":
                a = Api(ck, dict(files=False, linkset=cfg["linkset"]), [], extra=["-txt", txt] + extra)
                vf = txt
            else:
                a = Api(ck, cfg, files, extra=extra)
                vf = files[0] if files else notes
            probe = {}
            # what works is independent of what is announced
            if files and files[0] != miss:
                probe["visit"] = outcome(a.call("burl.visit", [{"file": vf, "lineNo": 1}])[0])
                probe["urlMentions"] = outcome(a.call("burl.urlMentions", [{"variants": ["https://a.example/x"]}])[0])
                probe["linkSet"] = outcome(a.call("burl.linkSet", [{"prefix": ["https"]}])[0])
            elif not files:
                probe["visit"] = outcome(a.call("burl.visit", [{"file": vf, "lineNo": 1}])[0])
                probe["urlMentions"] = outcome(a.call("burl.urlMentions", [{"variants": ["https://a.example/x"]}])[0])
            for n, offered in enumerate(lists):
                fs = [dict(o) for o in offered]
                if n % 5 == 4:
                    for o in fs:
                        o["options"] = {"clipboardForBody": True, "x": [1, {"y": None}]}
                p = dict(formats=fs, version=r.choice(VERS))
                if n % 7 == 3:
                    del p["version"]
                if n % 6 == 1:
                    # whatever happens to the files before
                    a.call(*r.choice([("burl.urlMentions", [{"variants": ["https://a.example/x"]}]), ("burl.linkSet", [{"prefix": ["https"]}]), ("burl.urlMentions", [{}]),
                                      ("burl.visit", [{"file": "/nonexistent/x", "lineNo": 1}]), ("linkremark.linkSet", [{"prefix": ["."]}]), ("burl.nothing", [])]))
                rep, _ = a.call(["hello", "burl.hello", "linkremark.hello"][n % 3], [p])
                out = outcome(rep)
                res = (rep or {}).get("result") or {}
                caps = res.get("capabilities") or []
                c = dict(kind="hello", offered=offered, cfg=cfg, out=out, version=str(res.get("version", "")), format=str(res.get("format", "")),
                         caps=[str(x) for x in caps], probe=probe if probe else {"none": "error"}, name="hello", pk="good")
                if not probe:
                    c["probe"] = {"none": "error"}
                cases.append(c)
                raw.append(dict(params=p, cfg=cfg, files=files, reply=json.dumps(rep)[:600], probe=probe))
            a.close()
    ck.sample(raw[0])
    for c, why in ck.judge("ApiJudge", cases, constants="CONSTANTS\n MaxCalls = 1\n Mutant = \"none\"\n")[:6]:
        ck.violation("hello: %s" % why["what"], raw[c["id"] - 1])

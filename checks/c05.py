"""C05: only published method names are callable; aliases are equivalent."""
import hashlib
from api import *

GOOD = {"hello": lambda n: hello_params("1.5"),
        "capture": lambda n: {"format": "org-protocol", "version": "0.2", "data": {"url": "org-protocol:/x", "title": "t", "body": {}}, "error": None},
        "visit": lambda n: {"file": n, "lineNo": 3},
        "urlMentions": lambda n: {"variants": ["https://a.example/x/"], "options": {"countLimit": 5}},
        "linkSet": lambda n: {"prefix": ["https"]}}
BADTYPE = {"hello": [{"formats": "org-protocol", "version": "1"}, {"formats": [{"format": "org-protocol", "version": 2}]}, {"formats": ["org-protocol"]}],
           "capture": [{"format": "org-protocol", "data": {"url": 5}}, {"format": "org-protocol", "data": "org-protocol:/x"},
                       {"format": ["org-protocol"], "data": {"url": "org-protocol:/x"}}],
           "visit": [{"file": "NOTES", "lineNo": "5"}, {"file": "NOTES", "lineNo": 1.5}, {"file": ["NOTES"], "lineNo": 1}, {"file": "NOTES", "lineNo": 1e30}],
           "urlMentions": [{"variants": "https://a.example/x"}, {"variants": [1]}, {"variants": ["https://a.example/x"], "options": {"countLimit": "5"}},
                           {"variants": {"0": "https://a.example/x"}}, {"variants": ["https://a.example/x"], "options": []}],
           "linkSet": [{"prefix": "https"}, {"prefix": [5]}, {"prefix": {"a": "https"}}]}


def params(op, pk, notes):
    """List of (params, omit) for a kind of parameters."""
    if pk == "good":
        return [([GOOD[op](notes)], False)]
    if pk == "badtype":
        return [([json.loads(json.dumps(v).replace("NOTES", notes))], False) for v in BADTYPE[op]]
    return {"null": [(None, False)], "missing": [([], True)], "empty": [([], False)], "emptyobj": [([{}], False)],
            "object": [(GOOD[op](notes), False)], "number": [([1], False), (7, False)], "string": [(["s"], False), ("s", False)],
            "nested": [([[GOOD[op](notes)]], False)], "nullelem": [([None], False)]}[pk]


def check(ck):
    ck.design("Api", "Api.cfg")
    r = ck.tlc("ApiGen", "INIT GInit\nNEXT GNext\nCONSTANTS\n MaxCalls = 1\n Mutant = \"none\"\nCHECK_DEADLOCK FALSE\n")
    gen = r.printed[0]
    published = {a: b for a, b in gen["published"]}
    names = sorted(gen["names"])
    extra = ["\u0431url.hello", "burl.hello\x00", "burl.hell\u043e", "x" * 5000, "burl", "Burl.Hello ", "hello\u200b", "Burl.UrlMentions\n", "reflection", "Burl..Hello"]
    world = ck.dir("w")
    notes = os.path.join(world, "n.org")
    with open(notes, "w") as f:
        f.write("* H\n[[https://a.example/x][d]]\n")
    cases = []
    raw = []
    for cfg in (dict(files=True, linkset=True), dict(files=True, linkset=False), dict(files=False, linkset=True)):
        a = Api(ck, cfg, [notes])
        ref = {}

        def one(name, op, pk, ps, omit):
            rep, starts = a.call(name, ps, omit=omit)
            out = outcome(rep)
            val = "%s" % json.dumps(rep and rep.get("result"), sort_keys=True)
            if len(val) > 100:
                val = hashlib.sha1(val.encode()).hexdigest()
            if name in published and out == "ok":
                ref.setdefault((op, json.dumps(ps)), val)
            h, _ = (rep, 0) if rep is None else a.call("hello", [hello_params("live")]) if pk != "good" or name not in published else (rep, 0)
            alive = h is not None and (h is rep or outcome(h) == "ok")
            cases.append(dict(kind="call", name=name, pk=pk, cfg=cfg, out=out, starts=starts, val=val, ref=ref.get((op, json.dumps(ps)), val), alive=alive))
            raw.append(dict(name=name, params=ps, omit=omit, cfg=cfg, reply=json.dumps(rep)[:500], starts=starts, alive=alive))
        rounds = ck.n(1, 4)
        for _ in range(rounds):
            order = [(n, op) for n, op in published.items()]
            ck.rng.shuffle(order)
            for name, op in order:
                for pk in gen["pks"]:
                    if pk == "object" and op == "x":
                        continue
                    for ps, omit in params(op, pk, notes):
                        one(name, op, pk, ps, omit)
        rest = [n for n in names + extra if n not in published]
        for name in rest:
            near = [op for op in GOOD if op.lower() in name.lower()] or list(GOOD)
            for op in (GOOD if ck.thorough else near):
                one(name, op, "good", [GOOD[op](notes)], False)
        for name in ck.rng.sample(rest, 40):
            op = ck.rng.choice(list(GOOD))
            pk = ck.rng.choice(sorted(gen["pks"]))
            for ps, omit in params(op, pk, notes):
                one(name, op, pk, ps, omit)
        a.close()
    ck.sample(raw[0])
    ck.sample(raw[-1])
    for c, why in ck.judge("ApiJudge", cases, constants="CONSTANTS\n MaxCalls = 1\n Mutant = \"none\"\n"):
        ck.violation("request '%s' (%s parameters): %s" % (c["name"], c["pk"], why["what"]), raw[c["id"] - 1])

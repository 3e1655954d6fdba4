"""C30: the client of the example add-on settles every call exactly once."""
import random
from vlib import *

NC, NV = 4, 10
FALSY = "{1, 2, 3}"


def consts(defects):
    return "CONSTANTS\n Calls = {1,2,3,4}\n MaxPort = 9\n Vals = {1,2,3,4,5,6,7,8,9,10}\n Falsy = %s\n Defects = %s\n" % (FALSY, defects)


def gen(ck, n):
    r = ck.tlc("AddonGen", "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" + consts("{}"), simulate=n, depth=15)
    seen, out = set(), []
    for p in r.printed:
        k = json.dumps(p["plan"])
        if k not in seen:
            seen.add(k)
            out.append(p["plan"])
    return out


def extra(r):
    """Histories of many repetitions: each value by each order."""
    E = lambda a, c=0, p=0, k="", v=0: dict(a=a, c=c, p=p, k=k, v=v)
    out = []
    for v in range(1, NV + 1):
        for k in ("ok", "err"):
            order = [1, 2, 3, 4]
            r.shuffle(order)
            ev = [E("send", c) for c in (1, 2, 3, 4)]
            ev += [E("reply", c, 1, k, v if i == 0 else r.randint(4, NV)) for i, c in enumerate(order)]
            ev += [E("reply", c, 1, "ok", r.randint(4, NV)) for c in order]
            out.append(ev + [E("gone", p=1)])
    return out


def check(ck):
    ck.design("AddonClient", "AddonClient.cfg")
    if ck.tier == "thorough":
        ck.design("AddonClient", "AddonClientBig.cfg")
    src = os.path.join(REPO, "examples/webextensions_addon/rpc_client.js")
    r = random.Random("c30/%d" % ck.seed)
    plans = gen(ck, ck.n(400, 20000))
    r.shuffle(plans)
    plans = plans[:ck.n(3000, 60000)] + extra(r)
    ck.sample("history: " + json.dumps(plans[0])[:300])
    cases = []
    for p in plans:
        for e in p:
            e["s"] = r.randint(0, 1000)
        cases.append(dict(ev=p, calls=NC, gen=r.choice(["default", "num", "str", "debug"])))
    inp = "".join(json.dumps(c) + "\n" for c in cases)
    try:
        res = subprocess.run(["node", os.path.join(VERIF, "native/addon.js"), src], input=inp.encode(), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        ck.violation("the client does not let the add-on go on", dict(cases=len(cases)))
        return
    if res.returncode:
        ck.violation("the client can not be run: " + res.stderr.decode(errors="replace")[-600:], dict(rc=res.returncode))
        return
    obs = [json.loads(x) for x in res.stdout.decode().splitlines()]
    if len(obs) != len(cases):
        raise MachineryError("%d of %d histories" % (len(obs), len(cases)))
    for c, o in zip(cases, obs):
        c["obs"] = o["obs"]
        c["ev"] = c["ev"][:len(o["obs"]) + 1]
        while len(c["obs"]) < len(c["ev"]):     # a connection has not been opened
            c["obs"].append(dict(n=-1, post=[], res=[]))
    ck.details["histories"] = len(cases)
    bad = [c for c, w in ck.judge("AddonJudge", cases, constants=consts("{}"))]
    # recorded findings: histories explained by exactly these defects
    for key, defects, what in [("falsy-result", '{"falsy"}', "results 0, false and \"\" are rejected as invalid responses"),
                               ("old-port", '{"oldport"}', "the end of a replaced connection fails calls of the new one"),
                               (None, '{"falsy", "oldport"}', "both")]:
        if not bad:
            break
        left = [c for c, w in ck.judge("AddonJudge", bad, constants=consts(defects))]
        ids = {id(c) for c in left}
        hit = [c for c in bad if id(c) not in ids]
        if hit and key:
            ck.violation(what, dict(ev=hit[0]["ev"], obs=hit[0]["obs"]), key=key)
        elif hit:
            for k, w in (("falsy-result", "results 0, false"), ("old-port", "end of a replaced connection")):
                if k not in ck.known:
                    ck.violation(w, dict(ev=hit[0]["ev"], obs=hit[0]["obs"]), key=k)
        bad = left
    for c, w in ck.judge("AddonJudge", bad[:50], constants=consts("{}"))[:3]:
        ck.violation(w["what"], dict(ev=c["ev"], obs=c["obs"], gen=c["gen"]))
    ck.assumptions += ["a fake browser.runtime of the harness: ports deliver messages and one end event each"]

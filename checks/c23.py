"""C23: the reported distance is the true distance."""
from fuzzy import *


def check(ck):
    ck.design("FuzzyDesign", "FuzzyDesign.cfg" if not ck.thorough else "FuzzyDesignBig.cfg")
    r = ck.rng
    reqs = []
    # all short pairs
    for letters, a, b in ([("ab", 4, 5), ("abc", 3, 4)] if not ck.thorough else [("ab", 6, 7), ("abc", 4, 6), ("abcd", 4, 4)]):
        ts = words(letters, b)
        reqs += [dict(p=p, ts=ts) for p in words(letters, a)]
    ck.details["pairs_enumerated"] = sum(len(q["ts"]) for q in reqs)
    for _ in range(ck.n(400, 8000)):
        alph = r.choice(ALPH)
        p = "".join(r.choice(alph) for _ in range(r.choice([1, 2, 3, 5, 8, 12])))
        ts = []
        for _ in range(5):
            t = mutate(r, p, alph + "zQ")
            ts.append(("".join(r.choice(alph) for _ in range(r.choice([0, 1, 3, 10]))) + t + "".join(r.choice(alph) for _ in range(r.choice([0, 1, 3, 10])))) or "a")
        ts += [p.upper(), p.lower(), "https://www.example.org/" + p, r.choice(alph), "".join(r.choice(alph) for _ in range(30))]
        reqs.append(dict(p=p, ts=ts))
    # long ones
    for _ in range(ck.n(4, 60)):
        p = "".join(r.choice("abcdef") for _ in range(r.choice([20, 33, 40])))
        reqs.append(dict(p=p, ts=[mutate(r, p, "abcdef"), "xy" + mutate(r, mutate(r, p, "abcdef"), "abcdef") + "zz", "a" * 60, "q"]))
    res, rc, err = run(ck, reqs)
    cases = []
    for k, q in enumerate(reqs):
        if k >= len(res):
            ck.violation("distance is not computed", dict(query=q["p"], texts=q["ts"][:10], rc=rc, stderr=err))
            return
        # big groups are split for the judge
        for a in range(0, len(q["ts"]), 40):
            cases.append(dict(kind="dist", p=cps(q["p"]), ts=[cps(t) for t in q["ts"][a:a + 40]], ds=res[k]["ds"][a:a + 40]))
    ck.details["pairs_judged"] = sum(len(c["ts"]) for c in cases)
    ck.sample(dict(query=reqs[-5]["p"], texts=reqs[-5]["ts"][:4], distances=res[-5]["ds"][:4]))
    for c, why in ck.judge("FuzzyJudge", cases, shards=8)[:6]:
        k = why["k"] - 1
        ck.violation("approximate match distance", dict(query=text(c["p"]), text=text(c["ts"][k]), reported=c["ds"][k], expected=why["want"]))

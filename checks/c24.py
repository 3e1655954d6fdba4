"""C24: ranked search: exported search over a stream of URLs and Search of the backend."""
import json, os, subprocess
import vlib
from fuzzy import *

HOSTS = ["example", "exmaple", "org", "emacs", "mode", "burl", "golang", "net", "a", "b", "list", "list2", "Orgmode", "EMACS"]


def urls(r, n):
    us = []
    for _ in range(n):
        k = r.random()
        u = "https://" + mutate(r, r.choice(HOSTS), "abcdefgh") + r.choice([".org/", ".net", "/"]) + r.choice(["", "x", "list", "manual", "A"])
        us.append(r.choice(us) if us and k < 0.2 else "".join(r.choice("ab") for _ in range(r.choice([1, 2, 3]))) if k < 0.4 else u)
    return us


def query(r, us):
    ws = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        k = r.random()
        base = r.choice(us) if us and k < 0.4 else r.choice(HOSTS)
        a = r.randrange(len(base))
        w = mutate(r, base[a:a + r.choice([1, 2, 4, 7])], "abcdxyz") or "a"
        w = "".join(w.split()) or "b"
        ws.append(w.upper() if r.random() < 0.2 else w)
    return ws


def check(ck):
    ck.design("TopK", "TopK.cfg")
    if ck.thorough:
        ck.design("FuzzyDesign", "FuzzyDesign.cfg")
    r = ck.rng
    reqs = []
    # exhaustive: all orders of small sets of candidates
    import itertools
    for base in (["a", "b", "ab", "ba"], ["aa", "ab", "aa", "b"], ["a", "a", "b", "bb"]):
        for perm in sorted(set(itertools.permutations(base))):
            for limit in (1, 2, 3, 5):
                for tol in (0, 1, 2):
                    reqs.append(dict(words=["a"] if tol != 2 else ["ab", "c"], urls=list(perm), limit=limit, tol=tol))
    if not ck.thorough:
        reqs = r.sample(reqs, 300)
    for _ in range(ck.n(700, 8000)):
        us = urls(r, r.choice([0, 1, 3, 8, 20, 40]))
        q = dict(words=query(r, us), urls=us)
        if r.random() < 0.9:
            q["limit"] = r.choice([1, 1, 2, 3, 5, 10, 50, 99])
        if r.random() < 0.9:
            q["tol"] = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 40])
        reqs.append(q)
    res, rc, err = run(ck, reqs)
    cases = []
    for k, q in enumerate(reqs):
        if k >= len(res):
            ck.violation("search is not completed", dict(query=q, rc=rc, stderr=err))
            return
        cases.append(dict(kind="top", words=[cps(w) for w in q["words"]], urls=[cps(u) for u in q["urls"]], limit=q.get("limit", 10), tol=q.get("tol", 5),
                          out=[cps(x["u"]) for x in res[k]["out"]], err=False, refuse=False))
    # the operation of the backend
    exe = ck.build_overlay("search_backend", "./cmd/burl_backend", {"cmd/burl_backend/zz_verif_search.go": "search.go"})
    if exe:
        d = ck.dir("notes")
        for k in range(ck.n(25, 250)):
            us = ["https:" + u if not u.startswith("https:") else u for u in urls(r, r.choice([1, 5, 20, 60]))]
            files = []
            for j in range(r.choice([1, 2])):
                p = os.path.join(d, "n%d-%d.org" % (k, j))
                with open(p, "w") as f:
                    f.write("* H\n")
                    for u in us[j::2] if r.random() < 0.5 or True else us:
                        f.write("[[%s]]\n" % u)
                files.append(p)
            inside = us if len(files) == 2 else us[0::2]
            qs = []
            for _ in range(12):
                q = dict(q=r.choice(["", " ", "  "]).join([""] + [" ".join(query(r, us))]))
                if r.random() < 0.8:
                    q["limit"] = r.choice([1, 2, 3, 10, 50, 99, 0, -1, -100, 100, 101, 2**40])
                if r.random() < 0.8:
                    q["tol"] = r.choice([0, 1, 2, 3, 5, 10, -1, -2**40, 2**40])
                qs.append(q)
            p = vlib.run([exe] + files, input="".join(json.dumps(q) + "\n" for q in qs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, VERIF_SEARCH="1"), timeout=60)
            out = vlib.objects(p.stdout)
            for q, o in itertools.zip_longest(qs, out):
                if o is None:
                    ck.violation("search of the backend is not completed", dict(query=q, urls=inside, stderr=p.stderr.decode()[-800:]))
                    return
                lim, tol = q.get("limit", 10), q.get("tol", 5)
                refuse = not 0 < lim < 100 or tol < 0
                cases.append(dict(kind="top", words=[cps(w) for w in q["q"].split()], urls=[cps(u) for u in inside], limit=min(max(lim, 0), 1000), tol=min(max(tol, 0), 10000),
                                  out=[cps(u) for u in o["out"]], err=o["err"], refuse=refuse))
    ck.sample(dict(query=reqs[-1], found=res[-1]["out"]))
    for c, why in ck.judge("FuzzyJudge", cases, shards=8)[:6]:
        ck.violation("ranked search: %s" % why["what"], dict(words=[text(w) for w in c["words"]], limit=c["limit"], tolerance=c["tol"], candidates=[text(u) for u in c["urls"]], found=[text(u) for u in c["out"]], error=c["err"]))

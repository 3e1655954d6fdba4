"""Queries and texts of the fuzzy search checks."""
import itertools, json, subprocess
import vlib
from links import cps, text


def run(ck, reqs):
    exe = ck.harness("fuzzy")
    p = vlib.run([exe], input="".join(json.dumps(r) + "\n" for r in reqs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    return vlib.objects(p.stdout), p.returncode, p.stderr.decode(errors="replace")[-1500:]


def words(letters, n):
    return ["".join(w) for k in range(1, n + 1) for w in itertools.product(letters, repeat=k)]


ALPH = ["ab", "abc", "aAbB", "abcdefgh", "\u0436\u0416\u044fa", "\u00e9\u00c9e", "x/.:-", "\u4e2d\u6587a", "\U0001f600a\U0001f601"]


def mutate(r, s, alph):
    """A string a few edits away."""
    s = list(s)
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        k = r.randrange(4)
        n = r.randrange(len(s) + 1)
        if k == 0:
            s.insert(n, r.choice(alph))
        elif k == 1 and len(s) > 1:
            s.pop(n % len(s))
        elif k == 2 and s:
            s[n % len(s)] = r.choice(alph)
        elif k == 3 and len(s) > 1:
            n %= len(s) - 1
            s[n], s[n + 1] = s[n + 1], s[n]
    return "".join(s)

----------------------------- MODULE FuzzyJudge -----------------------------
(* Cases: kind "dist": p, ts, ds; kind "top": words, urls, limit, tol, out,  *)
(* err.                                                                      *)
EXTENDS Fuzzy, Integers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0
BadDist(c) == {k \in DOMAIN c.ts : Dist(c.p, c.ts[k]) # c.ds[k]}
Top(c) ==
    LET d == [k \in DOMAIN c.urls |-> SumDist(c.words, c.urls[k], Len(c.words))]
        item(k) == [d |-> d[k], u |-> c.urls[k]]
        ks == SelectSeq([k \in DOMAIN c.urls |-> k], LAMBDA k : d[k] <= c.tol)
        all == [n \in DOMAIN ks |-> item(ks[n])]
        out == [n \in DOMAIN c.out |-> [d |-> SumDist(c.words, c.out[n], Len(c.words)), u |-> c.out[n]]] IN
    IF c.refuse THEN (IF c.err THEN "" ELSE "an impossible limit or tolerance is accepted")
    ELSE IF c.err THEN "refused" ELSE TopVerdict(all, c.limit, out)
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Cases[i'] IN
            IF c.kind = "dist"
            THEN LET b == BadDist(c) IN b # {} =>
                 LET k == MinOf(b) IN PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> "distance", k |-> k, want |-> Dist(c.p, c.ts[k])]]))
            ELSE LET v == Top(c) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

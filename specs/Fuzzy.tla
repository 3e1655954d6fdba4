------------------------------- MODULE Fuzzy --------------------------------
(* Approximate substring distance (C23) and ranked search (C24). Strings are *)
(* sequences of code points.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Lower(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) \/ c \in 1040..1071 THEN c + 32
            ELSE IF c \in 1024..1039 THEN c + 80 ELSE c
LowerSeq(s) == [k \in DOMAIN s |-> Lower(s[k])]
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Subs(t) == {SubSeq(t, a, b) : a \in 1..(Len(t) + 1), b \in 0..Len(t)}

(* Optimal string alignment of complete strings: the number of insertions,   *)
(* deletions, substitutions and swaps of neighbours, no place edited twice.  *)
RECURSIVE Osa(_, _)
Osa(p, t) ==
    IF p = <<>> THEN Len(t) ELSE IF t = <<>> THEN Len(p)
    ELSE LET m == Len(p)
             n == Len(t)
             p1 == SubSeq(p, 1, m - 1)
             t1 == SubSeq(t, 1, n - 1)
             a == Min2(Osa(p1, t1) + (IF p[m] = t[n] THEN 0 ELSE 1), Min2(Osa(p1, t), Osa(p, t1)) + 1) IN
         IF m > 1 /\ n > 1 /\ p[m] = t[n - 1] /\ p[m - 1] = t[n]
         THEN Min2(a, Osa(SubSeq(p, 1, m - 2), SubSeq(t, 1, n - 2)) + 1) ELSE a
(* The definition of the distance. *)
SubDistDef(p, t) == MinOf({Osa(p, s) : s \in Subs(t)})

(* The same by dynamic programming: rows are costs of a prefix of the        *)
(* pattern against substrings ending at every place of the text, place 0     *)
(* first.                                                                    *)
RECURSIVE Cells(_, _, _, _, _, _)
Cells(p, t, i, prev2, prev1, row) ==
    LET j == Len(row) IN
    IF j > Len(t) THEN row
    ELSE LET a == Min2(prev1[j] + (IF p[i] = t[j] THEN 0 ELSE 1), Min2(prev1[j + 1], row[j]) + 1)
             b == IF i > 1 /\ j > 1 /\ p[i] = t[j - 1] /\ p[i - 1] = t[j] THEN Min2(a, prev2[j - 1] + 1) ELSE a
         IN Cells(p, t, i, prev2, prev1, Append(row, b))
RECURSIVE Rows(_, _, _, _, _)
Rows(p, t, i, prev2, prev1) ==
    IF i > Len(p) THEN prev1 ELSE Rows(p, t, i + 1, prev1, Cells(p, t, i, prev2, prev1, <<i>>))
SubDist(p, t) ==
    LET zero == [k \in 1..(Len(t) + 1) |-> 0]
        last == Rows(p, t, 1, zero, zero) IN MinOf({last[k] : k \in DOMAIN last})
Dist(p, t) == SubDist(LowerSeq(p), LowerSeq(t))

(* ------------------------------- ranked search ---------------------------- *)
RECURSIVE SumDist(_, _, _)
SumDist(words, u, n) == IF n = 0 THEN 0 ELSE SumDist(words, u, n - 1) + Dist(words[n], u)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                    ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLess(a, b, k + 1)
(* Items [d, u]; texts of the same characters are equal. *)
Better(x, y) == \/ x.d < y.d
                \/ x.d = y.d /\ Len(x.u) < Len(y.u)
                \/ x.d = y.d /\ Len(x.u) = Len(y.u) /\ LexLess(x.u, y.u, 1)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
(* out is the list of the best limit items of all, best first. *)
TopVerdict(all, limit, out) ==
    IF Len(out) # Min2(limit, Len(all)) THEN "number of results"
    ELSE IF \E k \in DOMAIN out : \A j \in DOMAIN all : all[j].u # out[k].u THEN "not a candidate within the tolerance"
    ELSE IF \E k \in 1..(Len(out) - 1) : Better(out[k + 1], out[k]) THEN "order of results"
    ELSE IF \E k \in DOMAIN out : Count(out, out[k]) > Count(all, out[k]) THEN "repeated result"
    ELSE IF \E j \in DOMAIN all : out # <<>> /\ Better(all[j], out[Len(out)]) /\ Count(out, all[j]) < Count(all, all[j]) THEN "a better result is missing"
    ELSE ""
=============================================================================

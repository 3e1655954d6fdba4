----------------------------- MODULE CountLimit -----------------------------
(* Distribution of the count limit over the tree of found links (C08).       *)
(* A tree is [leaf |-> TRUE, links |-> <<u1, ...>>] or                       *)
(* [leaf |-> FALSE, ch |-> <<trees>>].                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS LeafSizes, Urls, MaxWidth, MaxTarget, Depth, Mutant

RECURSIVE Total(_), Shown(_), SumSeq(_), Distinct(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Total(t) == IF t.leaf THEN Len(t.links) ELSE SumSeq([k \in DOMAIN t.ch |-> Total(t.ch[k])])
Shown(t) == IF t.leaf THEN Len(t.links) ELSE SumSeq([k \in DOMAIN t.ch |-> Shown(t.ch[k])])
(* The first occurrences of every URL. *)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET r == Distinct(SubSeq(s, 1, Len(s) - 1))
                        x == s[Len(s)] IN
                    IF \E k \in DOMAIN r : r[k] = x THEN r ELSE Append(r, x)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* Children from the largest to the smallest one, stable. *)
Order(ch) == LET Before(a, b) == \/ Total(ch[a]) > Total(ch[b])
                                 \/ Total(ch[a]) = Total(ch[b]) /\ a < b
             IN [r \in DOMAIN ch |->
                   CHOOSE k \in DOMAIN ch : Cardinality({j \in DOMAIN ch : Before(j, k)}) = r - 1]
(* Shares are given from the smallest of chosen children. *)
RECURSIVE Shares(_, _, _, _, _)
Shares(ch, ord, r, sum, target) ==
    IF r = 0 THEN <<>>
    ELSE LET c == Total(ch[ord[r]])
             share == IF Mutant = "floor" THEN (c * target) \div sum ELSE Max(1, (c * target) \div sum)
         IN Append(Shares(ch, ord, r - 1, sum - c, target - share), share)
RECURSIVE Limit(_, _)
Limit(t, target) ==
    IF t.leaf THEN [t EXCEPT !.links = SubSeq(Distinct(t.links), 1, Min(target, Len(Distinct(t.links))))]
    ELSE LET full == Order(t.ch)
             ord == SubSeq(full, 1, Min(target, Len(full)))
             sum == SumSeq([r \in DOMAIN ord |-> Total(t.ch[ord[r]])])
             sh == Shares(t.ch, ord, Len(ord), sum, target)
             Pos(k) == CHOOSE r \in DOMAIN ord : ord[r] = k
             idx == SelectSeq([k \in DOMAIN t.ch |-> k], LAMBDA k : \E r \in DOMAIN ord : ord[r] = k)
         IN [t EXCEPT !.ch = [j \in DOMAIN idx |-> Limit(t.ch[idx[j]], sh[Pos(idx[j])])]]
Clamp(t, limit) == IF limit < 0 THEN 0 ELSE Min(limit, Total(t))

-----------------------------------------------------------------------------
Leaves == UNION {[1..n -> Urls] : n \in LeafSizes}
LeafTrees == {[leaf |-> TRUE, links |-> l] : l \in Leaves}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN LeafTrees
            ELSE LET sub == Trees(d - 1) IN
                 LeafTrees \cup {[leaf |-> FALSE, ch |-> s] : s \in UNION {[1..n -> sub] : n \in 1..MaxWidth}}

VARIABLES tree, limit
Init == tree \in Trees(Depth) /\ limit \in -1..MaxTarget
Next == UNCHANGED <<tree, limit>>
Result == Limit(tree, Clamp(tree, limit))

RECURSIVE NoEmpty(_), AllDistinct(_)
NoEmpty(t) == IF t.leaf THEN t.links # <<>> ELSE t.ch # <<>> /\ \A k \in DOMAIN t.ch : NoEmpty(t.ch[k])
AllDistinct(t) == IF t.leaf THEN [t EXCEPT !.links = Distinct(t.links)]
                  ELSE [t EXCEPT !.ch = [k \in DOMAIN t.ch |-> AllDistinct(t.ch[k])]]
WithinLimit == Shown(Result) <= Max(limit, 0)
NonEmpty == limit > 0 => NoEmpty(Result)
HidesNothing == limit >= Total(tree) => Result = AllDistinct(tree)
(* Groups dropped are never larger than kept ones: the kept ones are the     *)
(* first ones in Order by construction; here for the top level.              *)
LargestKept == (limit > 0 /\ ~tree.leaf) =>
    Len(Result.ch) = Min(Clamp(tree, limit), Len(tree.ch))
=============================================================================

----------------------------- MODULE FuzzyDesign ----------------------------
(* All short patterns and texts. An editor goes over the pattern and a part  *)
(* of the text from left to right: its edit scripts give the distance.       *)
EXTENDS Fuzzy, Json
CONSTANTS Letters, MaxP, MaxT, Mutant
VARIABLES p, t, i, j, cost
vars == <<p, t, i, j, cost>>
Words(n) == UNION {[1..m -> Letters] : m \in 1..n}
FInit == /\ p \in Words(MaxP) /\ t \in Words(MaxT) /\ cost = 0 /\ i = 0
         /\ j \in 0..Len(t)                     \* the substring starts anywhere
Step(di, dj, c) == i' = i + di /\ j' = j + dj /\ cost' = cost + c /\ UNCHANGED <<p, t>>
FNext == \/ i < Len(p) /\ j < Len(t) /\ Step(1, 1, IF p[i + 1] = t[j + 1] THEN 0 ELSE 1)
         \/ i < Len(p) /\ Step(1, 0, 1)
         \/ i > 0 /\ i < Len(p) /\ j < Len(t) /\ Step(0, 1, 1)
         \/ i + 1 < Len(p) /\ j + 1 < Len(t) /\ p[i + 1] = t[j + 2] /\ p[i + 2] = t[j + 1] /\ Step(2, 2, IF Mutant = "swap" THEN 0 ELSE 1)
(* No script is cheaper than the distance... *)
Lower0 == i = Len(p) => cost >= SubDist(p, t)
(* ...and the distance is what the definition says. *)
Same == i = 0 /\ j = 0 => /\ SubDist(p, t) = SubDistDef(p, t)
                          /\ SubDist(p, t) <= Len(p)
                          /\ (SubDist(p, t) = 0) <=> p \in Subs(t)
=============================================================================

-------------------------------- MODULE TopK --------------------------------
(* Candidates arrive in any order; at most K of them are kept (C24).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Items, MaxArrive, K, Mutant
VARIABLES seen, kept
\* items are numbers, smaller ones are better; bags as sequences in any order
TInit == seen = <<>> /\ kept = <<>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Worst(s) == MaxOf({s[k] : k \in DOMAIN s})
DropOne(s, x) == LET n == CHOOSE k \in DOMAIN s : s[k] = x IN
    [k \in 1..(Len(s) - 1) |-> IF k < n THEN s[k] ELSE s[k + 1]]
Arrive(x) ==
    /\ Len(seen) < MaxArrive
    /\ seen' = Append(seen, x)
    /\ kept' = IF Len(kept) < K THEN Append(kept, x)
               ELSE IF x < Worst(kept) THEN (IF Mutant = "first" THEN Append(Tail(kept), x) ELSE Append(DropOne(kept, Worst(kept)), x))
               ELSE kept
TNext == \E x \in Items : Arrive(x)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Min2(a, b) == IF a < b THEN a ELSE b
Best == /\ Len(kept) = Min2(K, Len(seen))
        /\ \A x \in Items : Count(kept, x) <= Count(seen, x)
        /\ \A x \in Items : kept # <<>> /\ x < Worst(kept) => Count(kept, x) = Count(seen, x)
=============================================================================

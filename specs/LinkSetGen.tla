----------------------------- MODULE LinkSetGen -----------------------------
(* All prefixes of up to MaxPref characters of a small alphabet, classified. *)
EXTENDS LinkSet, Json
CONSTANT MaxPref
VARIABLE p
Chars == {104, 46, 58, 45, 10, 49, 43, 92, 32, 1078}
PInit == p = <<>> /\ PrintT("@@" \o ToJson([p |-> <<>>, ok |-> PrefixOk(<<>>)]))
PNext == Len(p) < MaxPref /\ \E c \in Chars : p' = Append(p, c) /\ PrintT("@@" \o ToJson([p |-> p', ok |-> PrefixOk(p')]))
=============================================================================

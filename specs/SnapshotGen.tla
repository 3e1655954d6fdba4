---------------------------- MODULE SnapshotGen ----------------------------
(* Plans of sessions: M, L, O, X - a request (mentions, link set, hello, a   *)
(* refused one); o, l, x - the same, and it has to be answered at once       *)
(* though opened files are waiting; C - a file changes; G - a file being     *)
(* opened is opened. Probes make sense only during the load.                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES plan, busy
GInit == plan \in {<<"M">>, <<"L">>, <<"O">>} /\ busy = (plan # <<"O">>)
Letters == {"M", "L", "C", "G"} \cup (IF busy THEN {"o", "l", "x"} ELSE {})
GNext == /\ Len(plan) < Depth + 1
         /\ \E a \in Letters : plan' = Append(plan, a) /\ busy' = (busy \/ a \in {"M", "L"})
         /\ Len(plan') = Depth + 1 => PrintT("@@" \o ToJson([plan |-> plan']))
=============================================================================

------------------------------- MODULE ResGen -------------------------------
(* Plans of sessions for Resources: requests                                 *)
(*  O X hello, refused; M m mentions found, not found; L l link set, wrong   *)
(*  prefix; V v visit, refused; w k visit whose client fails, is killed;     *)
(*  N the client does not find the server, D it prints a lot and fails;      *)
(*  C c capture, refused; F capture whose client fails at the first run;     *)
(* h runs of the client wait from now on, r one of them goes on, R all;      *)
(* ? look at once, . look when everything that can be answered is.           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Hold
VARIABLES plan, held
Requests == {"O", "X", "M", "m", "L", "l", "V", "v", "w", "k", "N", "D", "C", "c", "F"}
GInit == plan = <<>> /\ held = FALSE
Letters == Requests \cup {"?", "."} \cup (IF ~Hold THEN {} ELSE IF held THEN {"r", "R"} ELSE {"h"})
GNext == /\ Len(plan) < Depth
         /\ \E a \in Letters : /\ plan' = Append(plan, a)
                               /\ held' = (a = "h" \/ (held /\ a # "R"))
Emit == Len(plan) = Depth => PrintT("@@" \o ToJson([plan |-> plan]))
=============================================================================

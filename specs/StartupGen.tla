----------------------------- MODULE StartupGen -----------------------------
(* Command lines with at most MaxSet options. *)
EXTENDS Startup, Sequences, TLC, Json
Emit == stage = "parse" => PrintT("@@" \o ToJson([c |-> c]))
GNext == FALSE /\ UNCHANGED vars
=============================================================================

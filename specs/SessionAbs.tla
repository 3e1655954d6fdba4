----------------------------- MODULE SessionAbs -----------------------------
(* What a browser may observe of one native messaging session (C01-C05).     *)
(* One action per externally visible event; Session.tla refines it.          *)
(*                                                                           *)
(* items   the frames of the session in order, kinds:                        *)
(*   "ok"     a request which needs nothing from outside to be answered      *)
(*   "gated"  a request whose handler waits for the Emacs client             *)
(*   "bad"    an oversize frame or one whose body is not a request object    *)
(*   "trunc"  a frame cut short by the end of input (always the last one)    *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES items, sent, closed, started, released, answered, ended
avars == <<items, sent, closed, started, released, answered, ended>>

Good(i) == items[i].kind \in {"ok", "gated"}
(* Requests which have to be answered: everything before the first broken frame. *)
Broken == {i \in 1..sent : ~Good(i)}
Served == IF Broken = {} THEN 1..sent ELSE 1..((CHOOSE i \in Broken : \A j \in Broken : i <= j) - 1)
BrokenSeen == \/ \E i \in Broken : items[i].kind = "bad"
              \/ closed
Ready(i) == items[i].kind = "gated" => i \in released
MustAnswer == {i \in Served \ answered : Ready(i)}

AInit(itemSet) ==
    /\ items \in itemSet
    /\ sent = 0 /\ closed = FALSE
    /\ started = {} /\ released = {} /\ answered = {}
    /\ ended = FALSE

Send ==
    /\ ~closed /\ sent < Len(items)
    /\ sent' = sent + 1
    /\ UNCHANGED <<items, closed, started, released, answered, ended>>

Close ==
    /\ ~closed
    /\ closed' = TRUE
    /\ UNCHANGED <<items, sent, started, released, answered, ended>>

(* The handler of a request has reached the Emacs client. *)
Start(i) ==
    /\ i \in Served \ started /\ items[i].kind = "gated"
    /\ ~ended
    /\ started' = started \cup {i}
    /\ UNCHANGED <<items, sent, closed, released, answered, ended>>

Release(i) ==
    /\ i \in started \ released
    /\ released' = released \cup {i}
    /\ UNCHANGED <<items, sent, closed, started, answered, ended>>

(* A whole frame with the response to request i. *)
Answer(i) ==
    /\ i \in Served \ answered /\ Ready(i)
    /\ ~ended
    /\ answered' = answered \cup {i}
    /\ UNCHANGED <<items, sent, closed, started, released, ended>>

End ==
    /\ ~ended /\ BrokenSeen /\ answered = Served
    /\ ended' = TRUE
    /\ UNCHANGED <<items, sent, closed, started, released, answered>>

ANext == \/ Send \/ Close \/ End
         \/ \E i \in DOMAIN items : Start(i) \/ Release(i) \/ Answer(i)

(* The properties on this level. *)
OnlyServedAnswered == answered \subseteq Served
EndedComplete == ended => answered = Served
NeverAfterBroken == \A i \in answered, j \in Broken : i < j
=============================================================================

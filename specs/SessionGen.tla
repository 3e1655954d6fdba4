----------------------------- MODULE SessionGen -----------------------------
(* Generator of test scenarios: random walks (tlc -simulate) through the     *)
(* browser side of SessionAbs. Kinds of frames are chosen on the fly.        *)
EXTENDS SessionAbs, TLC, Json

CONSTANTS Kinds, MaxSent, MinSent
VARIABLES script
gvars == <<avars, script>>

GInit == /\ items = <<>> /\ sent = 0 /\ closed = FALSE
         /\ started = {} /\ released = {} /\ answered = {} /\ ended = FALSE
         /\ script = <<>>
Step(x) == script' = Append(script, x)
Clean == \A i \in 1..sent : Good(i)

GSend(kind) ==
    /\ ~closed /\ sent < MaxSent
    /\ (kind = "trunc" => sent + 1 >= MinSent /\ Clean)
    /\ (sent > 0 => items[sent].kind # "trunc")
    /\ items' = Append(items, [kind |-> kind])
    /\ sent' = sent + 1
    /\ Step([a |-> "send", kind |-> kind])
    /\ UNCHANGED <<closed, started, released, answered, ended>>
(* Wait until everything that can be answered is answered. *)
GWait ==
    /\ sent > 0 /\ script[Len(script)].a \in {"send", "release"}
    /\ answered' = answered \cup MustAnswer
    /\ Step([a |-> "wait"])
    /\ UNCHANGED <<items, sent, closed, started, released, ended>>
GRelease(i) ==
    /\ i \in Served /\ items[i].kind = "gated" /\ i \notin released
    /\ started' = started \cup {i}
    /\ released' = released \cup {i}
    /\ Step([a |-> "release", i |-> i])
    /\ UNCHANGED <<items, sent, closed, answered, ended>>
GClose ==
    /\ ~closed /\ sent >= MinSent
    /\ closed' = TRUE
    /\ Step([a |-> "close"])
    /\ UNCHANGED <<items, sent, started, released, answered, ended>>
GEnd ==
    /\ closed /\ ~ended
    /\ \A i \in Served : Ready(i)
    /\ ended' = TRUE
    /\ answered' = Served
    /\ Step([a |-> "end"])
    /\ PrintT("@@" \o ToJson([script |-> script']))
    /\ UNCHANGED <<items, sent, closed, started, released>>

GNext == \/ \E kind \in Kinds : GSend(kind)
         \/ GWait \/ GClose \/ GEnd
         \/ \E i \in 1..sent : GRelease(i)
=============================================================================

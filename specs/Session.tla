------------------------------- MODULE Session -------------------------------
(* Design of the serving loop: one reader, one handler per request, one lock *)
(* for the output, responses written as a header followed by a body.         *)
(* Refines SessionAbs. CONSTANT MUTANT switches on known-bad variants of the *)
(* design in order to show that the properties are not vacuous.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds, MaxItems, Mutant

VARIABLES items, sent, closed, nread, mode, h, lock, out
vars == <<items, sent, closed, nread, mode, h, lock, out>>

KindSeqs == UNION {[1..n -> [kind : Kinds]] : n \in 0..MaxItems}
ItemSeqs == {s \in KindSeqs : \A i \in DOMAIN s : s[i].kind = "trunc" => i = Len(s)}

Idx == DOMAIN items
Init ==
    /\ items \in ItemSeqs
    /\ sent = 0 /\ closed = FALSE /\ nread = 0
    /\ mode = "run"
    /\ h = [i \in Idx |-> "none"]
    /\ lock = 0
    /\ out = <<>>

Browser ==
    \/ /\ ~closed /\ sent < Len(items) /\ sent' = sent + 1
       /\ UNCHANGED <<items, closed, nread, mode, h, lock, out>>
    \/ /\ ~closed /\ closed' = TRUE
       /\ UNCHANGED <<items, sent, nread, mode, h, lock, out>>

(* FrameLimitedReader.ReadHeader, then decoding of the body. *)
ReadGood ==
    /\ mode = "run" /\ nread < sent
    /\ items[nread + 1].kind \in {"ok", "gated"}
    /\ nread' = nread + 1
    /\ h' = [h EXCEPT ![nread + 1] = "running"]
    /\ UNCHANGED <<items, sent, closed, mode, lock, out>>

ReadBroken ==
    /\ mode = "run" /\ nread < sent
    /\ \/ items[nread + 1].kind = "bad"
       \/ items[nread + 1].kind = "trunc" /\ closed
    /\ nread' = nread + 1
    /\ mode' = IF Mutant = "skipbad" THEN "run" ELSE "drain"
    /\ UNCHANGED <<items, sent, closed, h, lock, out>>

ReadEof ==
    /\ mode = "run" /\ nread = sent /\ closed
    /\ mode' = "drain"
    /\ UNCHANGED <<items, sent, closed, nread, h, lock, out>>

Set(i, from, to) == /\ h[i] = from
                    /\ h' = [h EXCEPT ![i] = to]
Reach(i) == /\ items[i].kind = "gated" /\ Set(i, "running", "blocked")
            /\ UNCHANGED <<items, sent, closed, nread, mode, lock, out>>
Unblock(i) == /\ Set(i, "blocked", "released")
              /\ UNCHANGED <<items, sent, closed, nread, mode, lock, out>>
Finish(i) == /\ IF items[i].kind = "gated" THEN Set(i, "released", "done")
                                           ELSE Set(i, "running", "done")
             /\ UNCHANGED <<items, sent, closed, nread, mode, lock, out>>
(* net/rpc holds its lock around serverCodec.WriteResponse. *)
Header(i) == /\ (lock = 0 \/ Mutant = "nolock") /\ Set(i, "done", "hdr")
             /\ lock' = i
             /\ out' = Append(out, <<"hdr", i>>)
             /\ UNCHANGED <<items, sent, closed, nread, mode>>
Body(i) == /\ Set(i, "hdr", "answered")
           /\ lock' = 0
           /\ out' = Append(out, <<"body", i>>)
           /\ UNCHANGED <<items, sent, closed, nread, mode>>

Idle == \A i \in Idx : h[i] \in {"none", "answered"}
Exit == /\ mode = "drain" /\ (Idle \/ Mutant = "nowait")
        /\ mode' = "exit"
        /\ UNCHANGED <<items, sent, closed, nread, h, lock, out>>

Handlers == \E i \in Idx : Reach(i) \/ Unblock(i) \/ Finish(i) \/ Header(i) \/ Body(i)
Next == Browser \/ ReadGood \/ ReadBroken \/ ReadEof \/ (mode # "exit" /\ Handlers) \/ Exit
Spec == Init /\ [][Next]_vars
Fair == /\ \A i \in 1..MaxItems : /\ WF_vars(i \in Idx /\ Reach(i)) /\ WF_vars(i \in Idx /\ Unblock(i))
                                  /\ WF_vars(i \in Idx /\ Finish(i)) /\ SF_vars(i \in Idx /\ Header(i))
                                  /\ WF_vars(i \in Idx /\ Body(i))
        /\ WF_vars(ReadGood \/ ReadBroken \/ ReadEof) /\ WF_vars(Exit)
LiveSpec == Spec /\ Fair

(* C01: whole frames only *)
OutWellFormed ==
    \A k \in DOMAIN out :
        /\ (k % 2 = 1) => out[k][1] = "hdr"
        /\ (k % 2 = 0) => out[k] = <<"body", out[k - 1][2]>>
(* C02: at most one response *)
AtMostOnce == \A k, m \in DOMAIN out : out[k] = out[m] => k = m
(* C02/C04: everything accepted is answered before exit, whatever it was *)
ExitComplete == mode = "exit" => Idle
(* liveness: end of input or a broken frame ends the session *)
Ends == (closed \/ \E i \in 1..sent : items[i].kind = "bad") ~> (mode = "exit")
Answered == \A i \in 1..MaxItems :
    (i \in Idx /\ i <= sent /\ \A j \in 1..i : items[j].kind \in {"ok", "gated"}) ~> (i \in Idx /\ h[i] = "answered")

Abs == INSTANCE SessionAbs WITH
    started <- {i \in Idx : items[i].kind = "gated" /\ h[i] \notin {"none", "running"}},
    released <- {i \in Idx : items[i].kind = "gated" /\ h[i] \in {"released", "done", "hdr", "answered"}},
    answered <- {i \in Idx : h[i] = "answered"},
    ended <- (mode = "exit")
Refines == Abs!AInit(ItemSeqs) /\ [][Abs!ANext]_(Abs!avars)
=============================================================================

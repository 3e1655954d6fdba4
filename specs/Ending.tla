------------------------------- MODULE Ending -------------------------------
(* How the backend ends. The browser goes away in any order: it closes the   *)
(* input, the reader of the output disappears, the process is asked to stop. *)
(* Requests may wait for Emacs as long as its user likes.                    *)
EXTENDS Naturals, FiniteSets
CONSTANTS Reqs, Mutant
VARIABLES rq,      \* request -> new, sent, wait (for Emacs), ready, done
          lost,    \* requests whose replies were not delivered
          inp, outp, term, alive, status
vars == <<rq, lost, inp, outp, term, alive, status>>
Init == /\ rq = [r \in Reqs |-> "new"] /\ lost = {}
        /\ inp = "open" /\ outp = "open" /\ term = FALSE
        /\ alive = TRUE /\ status = "none"
Set(r, s) == rq' = [rq EXCEPT ![r] = s]
End(s) == alive' = FALSE /\ status' = s
Same == UNCHANGED <<alive, status>>
(* ------------------------------ environment ------------------------------ *)
Send(r) == inp = "open" /\ rq[r] = "new" /\ Set(r, "sent") /\ UNCHANGED <<lost, inp, outp, term>> /\ Same
CloseIn == inp = "open" /\ inp' = "closed" /\ UNCHANGED <<rq, lost, outp, term>> /\ Same
Gone == outp = "open" /\ outp' = "gone" /\ UNCHANGED <<rq, lost, inp, term>> /\ Same
Term == ~term /\ term' = TRUE /\ UNCHANGED <<rq, lost, inp, outp>> /\ Same
Emacs(r) == rq[r] = "wait" /\ Set(r, "ready") /\ UNCHANGED <<lost, inp, outp, term>> /\ Same
(* -------------------------------- program -------------------------------- *)
Serve(r) == /\ alive /\ rq[r] = "sent" /\ (\E s \in {"wait", "ready"} : Set(r, s))
            /\ UNCHANGED <<lost, inp, outp, term>> /\ Same
Reply(r) == /\ alive /\ rq[r] = "ready" /\ Set(r, "done")
            /\ IF outp = "open" THEN UNCHANGED lost /\ Same
               ELSE lost' = lost \cup {r} /\ (IF Mutant = "pipe_ignored" THEN Same ELSE End("pipe"))
            /\ UNCHANGED <<inp, outp, term>>
Pending == {r \in Reqs : rq[r] \in {"sent", "wait", "ready"}}
Eof == /\ alive /\ inp = "closed" /\ Mutant # "eof_ignored"
       /\ Pending = {} \/ Mutant = "eof_at_once"
       /\ ~(Mutant = "counter" /\ outp = "gone")
       /\ End("0") /\ UNCHANGED <<rq, lost, inp, outp, term>>
Stop == /\ alive /\ term /\ Mutant # "term_ignored"
        /\ Mutant = "term_waits" => Pending = {}
        /\ End("term") /\ UNCHANGED <<rq, lost, inp, outp, term>>
Prog == (\E r \in Reqs : Serve(r) \/ Reply(r)) \/ Eof \/ Stop
Next == (\E r \in Reqs : Send(r) \/ Emacs(r)) \/ CloseIn \/ Gone \/ Term \/ Prog
Fair == WF_vars(Eof) /\ WF_vars(Stop) /\ \A r \in Reqs : WF_vars(Serve(r)) /\ WF_vars(Reply(r))
Spec == Init /\ [][Next]_vars /\ Fair

(* What is allowed to the real program, given what the browser did.          *)
MayEnd(i, o, tm, pending, s) == \/ tm
                                \/ o = "gone"
                                \/ i = "closed" /\ pending = 0 /\ s = "0"
(* It can not be running forever: held - requests waiting for Emacs,         *)
(* unheld - other requests, late - a reply had to be written after the       *)
(* reader had disappeared.                                                   *)
MustEnd(i, o, tm, held, unheld, late) == \/ tm
                                         \/ i = "closed" /\ held = 0
                                         \/ o = "gone" /\ late
Honest == ~alive => MayEnd(inp, outp, term, Cardinality(Pending), status)
Clean == status = "0" => (\A r \in Reqs : rq[r] \in {"new", "done"}) /\ (outp = "open" => lost = {})
OnePipe == Cardinality(lost) <= 1
Held == Cardinality({r \in Reqs : rq[r] = "wait"})
Other == Cardinality(Pending) - Held
Ends == MustEnd(inp, outp, term, Held, Other, lost # {} \/ (outp = "gone" /\ \E r \in Reqs : rq[r] = "ready")) ~> (~alive \/ Held > 0)
TermEnds == term ~> ~alive
=============================================================================

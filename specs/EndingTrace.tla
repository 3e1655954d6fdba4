---------------------------- MODULE EndingTrace ----------------------------
(* Recorded ends of real backends.                                           *)
(*  req i held big | part | release i | resp i | closein | gone | term       *)
(*  stall | resume | alive cpu | ended status noise                          *)
EXTENDS Ending, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, p, open, i, o, tm, late, stall, over
tvars == <<t, p, open, i, o, tm, late, stall, over>>
TInit == /\ t \in DOMAIN Traces /\ p = 1 /\ open = [x \in {} |-> ""]
         /\ i = "open" /\ o = "open" /\ tm = FALSE /\ late = FALSE /\ stall = FALSE /\ over = FALSE
         /\ rq = <<>> /\ lost = {} /\ inp = "" /\ outp = "" /\ term = FALSE /\ alive = TRUE /\ status = ""
Ev == Traces[t].ev[p]
Is(e) == p <= Len(Traces[t].ev) /\ Ev.e = e /\ p' = p + 1 /\ t' = t /\ UNCHANGED vars
HeldT == Cardinality({x \in DOMAIN open : open[x] = "held"})
UnheldT == Cardinality(DOMAIN open) - HeldT
Req == /\ Is("req") /\ open' = (Ev.i :> (IF Ev.held THEN "held" ELSE IF Ev.big THEN "big" ELSE "ok")) @@ open
       /\ late' = (late \/ (o = "gone" /\ ~Ev.held))
       /\ UNCHANGED <<i, o, tm, stall, over>>
(* Emacs is done, the reply is written. *)
Release == /\ Is("release") /\ Ev.i \in DOMAIN open /\ open' = [open EXCEPT ![Ev.i] = "ok"]
           /\ late' = (late \/ o = "gone")
           /\ UNCHANGED <<i, o, tm, stall, over>>
Resp == /\ Is("resp") /\ Ev.i \in DOMAIN open /\ open[Ev.i] # "held"
        /\ open' = [x \in DOMAIN open \ {Ev.i} |-> open[x]] /\ UNCHANGED <<i, o, tm, late, stall, over>>
CloseInT == Is("closein") /\ i' = "closed" /\ UNCHANGED <<open, o, tm, late, stall, over>>
GoneT == /\ Is("gone") /\ o' = "gone"
         \* a reply larger than the pipe was being written
         /\ late' = (late \/ (\E x \in DOMAIN open : open[x] = "big"))
         /\ UNCHANGED <<open, i, tm, stall, over>>
TermT == Is("term") /\ tm' = TRUE /\ UNCHANGED <<open, i, o, late, stall, over>>
Stall == Is("stall") /\ stall' = TRUE /\ UNCHANGED <<open, i, o, tm, late, over>>
Resume == Is("resume") /\ stall' = FALSE /\ UNCHANGED <<open, i, o, tm, late, over>>
Blocked == stall /\ o = "open" /\ UnheldT > 0
Alive == /\ Is("alive") /\ ~over
         /\ MustEnd(i, o, tm, HeldT, UnheldT, late) => (Blocked /\ ~tm)
         /\ Ev.cpu <= 20
         /\ UNCHANGED <<open, i, o, tm, late, stall, over>>
Ended == /\ Is("ended") /\ ~over /\ over' = TRUE
         /\ MayEnd(i, o, tm, Cardinality(DOMAIN open), Ev.status)
         /\ (Ev.noise => tm \/ o = "gone")
         /\ UNCHANGED <<open, i, o, tm, late, stall>>
TNext == Req \/ Release \/ Resp \/ CloseInT \/ GoneT \/ TermT \/ Stall \/ Resume \/ Alive \/ Ended
Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (p = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, p>>])))
=============================================================================

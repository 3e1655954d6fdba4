---------------------------- MODULE StartupJudge ----------------------------
(* Recorded starts: c - command line, o - outcome (made: sequence). *)
EXTENDS Startup, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == c = Default /\ stage = "end" /\ o = Quiet /\ i = 0
Out(x) == [x EXCEPT !.made = {x.made[k] : k \in DOMAIN x.made}]
BNext == /\ i < Len(Cases) /\ i' = i + 1 /\ UNCHANGED vars
         /\ ~Allowed(Cases[i'].c, Out(Cases[i'].o)) => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> "outcome"]]))
=============================================================================

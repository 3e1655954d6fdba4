------------------------------ MODULE ApiJudge ------------------------------
(* Judges recorded requests: {name, pk, cfg, out, starts, ref, val, alive}.   *)
(* val is the answer, ref the answer to the same request by the first name.   *)
EXTENDS Api, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0 /\ cfg = 0 /\ calls = 0 /\ starts = 0
Set(s) == {s[k] : k \in DOMAIN s}
Verdict(c) ==
    IF c.kind = "call" THEN
         IF ~Free(c.name, c.pk, c.cfg) /\ c.out # Outcome(c.name, c.pk, c.cfg) THEN "outcome"
         ELSE IF c.starts > 0 /\ ~MayStartEmacs(c.name, c.pk, c.cfg) THEN "Emacs started"
         ELSE IF ~Free(c.name, c.pk, c.cfg) /\ c.out = "ok" /\ c.val # c.ref THEN "differs from other name of the operation"
         ELSE IF ~c.alive THEN "session is not usable" ELSE ""
    ELSE \* hello with a list of offered formats
         LET Offers == c.offered
             match == {k \in DOMAIN Offers : Offers[k].format = "org-protocol"}
             first == IF match = {} THEN 0 ELSE CHOOSE k \in match : \A j \in match : k <= j
             good == first > 0 /\ Offers[first].version # "" IN
         IF c.out # (IF good THEN "ok" ELSE "error") THEN "outcome"
         ELSE IF good /\ c.version # Offers[first].version THEN "version"
         ELSE IF good /\ c.format # "org-protocol" THEN "format"
         ELSE IF good /\ ~(Set(c.caps) = Capabilities(c.cfg) /\ Len(c.caps) = Cardinality(Set(c.caps))) THEN "capabilities"
         ELSE IF good /\ \E k \in DOMAIN c.probe :
                  (c.probe[k] = "ok") # (k \in Capabilities(c.cfg)) THEN "capability is not what works" ELSE ""
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ UNCHANGED vars
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

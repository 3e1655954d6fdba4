----------------------------- MODULE AddonJudge -----------------------------
(* Recorded histories: ev - events, obs[i] - after event i: n - number of    *)
(* connections opened, post - <<port, call>> posted by this event, res -     *)
(* outcomes of calls.                                                        *)
EXTENDS AddonClient, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0 /\ st = Empty /\ had = {}
Res(s) == [c \in 1..Cardinality(Calls) |-> s.res[c]]
RECURSIVE Run(_, _, _)
Run(c, k, s) ==
  IF k > Len(c.ev) THEN ""
  ELSE LET e == c.ev[k]
           t == Step(s, e)
           o == c.obs[k]
           post == IF e.a = "send" /\ t.via[e.c] # 0 THEN <<<<t.via[e.c], e.c>>>> ELSE <<>> IN
       IF o.n # t.n THEN "number of connections after " \o ToString(k)
       ELSE IF o.post # post THEN "message posted at " \o ToString(k)
       ELSE IF o.res # Res(t) THEN "outcomes after " \o ToString(k)
       ELSE Run(c, k + 1, t)
BNext == /\ i < Len(Cases) /\ i' = i + 1 /\ UNCHANGED <<st, had>>
         /\ LET v == Run(Cases[i'], 1, Empty) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

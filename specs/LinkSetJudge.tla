---------------------------- MODULE LinkSetJudge ----------------------------
EXTENDS LinkSet, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Cases[i']
                v == Verdict(c) IN
            v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v, must |-> IF c.err THEN {} ELSE Must(c.files, c.q)]]))
=============================================================================

------------------------------ MODULE OrgJudge ------------------------------
(* Recorded links of lines of Org files. Case: sch, ls = <<[l, out]>>, where  *)
(* out is a sequence of <<url, description>>; expect: print what is right.   *)
EXTENDS OrgSyntax, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0
Pairs(ls) == [k \in DOMAIN ls |-> <<ls[k].u, ls[k].d>>]
Expect(c, k) == Pairs(Links(c.ls[k].l, SeqSet(c.sch)))
(* A URL repeated on a line may be reported once. *)
Uniq(ps) == LET x == SelectSeq([k \in DOMAIN ps |-> <<k, ps[k]>>], LAMBDA y : ~\E m \in 1..(y[1] - 1) : ps[m][1] = y[2][1])
            IN [k \in DOMAIN x |-> x[k][2]]
Bad(c) == {k \in DOMAIN c.ls : Uniq(Expect(c, k)) # Uniq(c.ls[k].out)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Cases[i + 1]
                b == IF c.expect THEN {} ELSE Bad(c) IN
            /\ c.expect => PrintT("@@" \o ToJson([id |-> i', links |-> [k \in DOMAIN c.ls |-> Expect(c, k)]]))
            /\ b # {} => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> "links of a line", line |-> MinOf(b), want |-> Expect(c, MinOf(b))]]))
=============================================================================

------------------------------ MODULE TxtJudge ------------------------------
(* Recorded URLs of plain texts. Case: l - text, out = <<[u, n]>>.           *)
EXTENDS TxtSyntax, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0
RECURSIVE Fits(_, _, _, _)
(* What may be reported may also be omitted. *)
Fits(e, a, o, b) ==
    IF a > Len(e) THEN b > Len(o)
    ELSE IF b <= Len(o) /\ e[a].u = o[b].u /\ e[a].n = o[b].n THEN Fits(e, a + 1, o, b + 1)
    ELSE e[a].class = "may" /\ Fits(e, a + 1, o, b)
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Cases[i']
                e == TextUrls(c.l, 1, 1) IN
            /\ c.expect => PrintT("@@" \o ToJson([id |-> i', links |-> e]))
            /\ (~c.expect /\ ~Fits(e, 1, c.out, 1)) => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> "URLs of a text", want |-> e]]))
=============================================================================

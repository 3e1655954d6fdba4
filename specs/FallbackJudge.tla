---------------------------- MODULE FallbackJudge ----------------------------
(* Answer of a wrapper without its backend (C20). A case: path and text (the *)
(* error) as sequences of characters, head (announced length), body (real    *)
(* length of what follows), json, object with error text only.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
(* The path with characters special for JSON possibly replaced. *)
Char(p, t) == p = t \/ p \in {34, 92}
Names(text, path) == \E k \in 0..(Len(text) - Len(path)) : \A n \in DOMAIN path : Char(path[n], text[k + n])
Verdict(c) ==
    IF c.total < 4 THEN "no frame"
    ELSE IF c.head # c.total - 4 THEN "announced length " \o ToString(c.head) \o ", body length " \o ToString(c.total - 4)
    ELSE IF ~c.json THEN "the body is not a JSON object"
    ELSE IF ~c.error THEN "no error text"
    ELSE IF ~Names(c.text, c.path) THEN "the error does not name the path"
    ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

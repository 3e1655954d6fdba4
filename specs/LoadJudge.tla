------------------------------ MODULE LoadJudge ------------------------------
(* Sessions with note files that can not be read (C10).                      *)
(*  files    [st: "ok", "long" (has a line that the reader may not support), *)
(*           "bad"; links: addresses in the file]                            *)
(*  answers  [k, err, clean (no result besides an error), urls, total];      *)
(*           k: "M" all addresses, "E" mentions without addresses, "L" link  *)
(*           set, "O" hello;   ended - normal end of the process             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Elems(s) == {s[n] : n \in DOMAIN s}
RECURSIVE Count(_, _)
Count(fs, n) == IF n = 0 THEN 0 ELSE Count(fs, n - 1) + Len(fs[n].links)
Bad(c) == \E f \in DOMAIN c.files : c.files[f].st = "bad"
Long(c) == \E f \in DOMAIN c.files : c.files[f].st = "long"
AllLinks(c) == UNION {Elems(c.files[f].links) : f \in DOMAIN c.files}
Complete(c, a) == /\ ~a.err /\ Elems(a.urls) = AllLinks(c)
                  /\ a.k = "M" => a.total = Count(c.files, Len(c.files))
Failed(a) == a.err /\ a.clean
Good(c, a) ==
    CASE a.k = "O" -> ~a.err
      [] a.k = "E" -> Failed(a)
      [] a.k = "M" -> IF Bad(c) \/ AllLinks(c) = {} THEN Failed(a) ELSE IF Long(c) THEN Failed(a) \/ Complete(c, a) ELSE Complete(c, a)
      [] a.k = "L" -> IF Bad(c) THEN Failed(a) ELSE IF Long(c) THEN Failed(a) \/ Complete(c, a) ELSE c.files = <<>> \/ Complete(c, a)
Verdict(c) ==
    IF \E n \in DOMAIN c.answers : ~Good(c, c.answers[n]) THEN
        LET n == CHOOSE m \in DOMAIN c.answers : ~Good(c, c.answers[m]) /\ \A k \in 1..(m - 1) : Good(c, c.answers[k]) IN
        "answer " \o ToString(n) \o " of kind " \o c.answers[n].k
    ELSE IF \E m, n \in DOMAIN c.answers : c.answers[m].k = "M" /\ c.answers[n].k = "M" /\ c.answers[m].err # c.answers[n].err THEN "mention queries disagree"
    ELSE IF Len(c.answers) # c.asked THEN "not every request is answered"
    ELSE IF ~c.ended THEN "the process does not end normally" ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

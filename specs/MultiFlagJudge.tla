--------------------------- MODULE MultiFlagJudge ---------------------------
(* A case: defaults, given and what the option said after each value: steps  *)
(* (list, modified, changed, err). Or, kind "schemes": given values of       *)
(* -scheme, links of a note file [scheme, url] and the reported urls. Or,    *)
(* kind "list": only the list in the end.                                    *)
EXTENDS MultiFlag, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE States(_, _)
States(s, vs) == IF vs = <<>> THEN <<>> ELSE LET t == MSet(s, vs[1]) IN <<t>> \o States(t, SubSeq(vs, 2, Len(vs)))
StepOk(s, v, o) ==
    IF Refused(s, v) THEN o.err /\ o.list = s.list
    ELSE LET t == MSet(s, v) IN ~o.err /\ o.list = t.list /\ o.modified = Modified(t) /\ o.changed
OptionOk(c) ==
    LET st == <<MInit(c.defaults)>> \o States(MInit(c.defaults), c.given) IN
    /\ c.first.list = c.defaults /\ c.first.modified = <<>> /\ ~c.first.changed
    /\ \A k \in DOMAIN c.given : StepOk(st[k], c.given[k], c.steps[k])
    /\ LET e == st[Len(st)] IN
       (\A k \in DOMAIN c.given : ~Refused(st[k], c.given[k])) => c.replayed = e.list
(* Entries of the scheme list are patterns, only "?" is used here. *)
C(s, k) == SubSeq(s, k, k)
RECURSIVE M(_, _, _, _)
M(e, i, s, j) ==
    IF i > Len(e) THEN j > Len(s)
    ELSE IF i < Len(e) /\ C(e, i + 1) = "?"
    THEN M(e, i + 2, s, j) \/ (j <= Len(s) /\ C(s, j) = C(e, i) /\ M(e, i + 2, s, j + 1))
    ELSE j <= Len(s) /\ C(s, j) = C(e, i) /\ M(e, i + 1, s, j + 1)
Entry(e) == IF e # "" /\ C(e, Len(e)) = ":" THEN SubSeq(e, 1, Len(e) - 1) ELSE e
Matches(es, s) == \E k \in DOMAIN es : Entry(es[k]) # "" /\ M(Entry(es[k]), 1, s, 1)
Reported(c) == LET es == MAll(MInit(c.defaults), c.given).list IN
               {c.links[k].url : k \in {x \in DOMAIN c.links : Matches(es, c.links[x].scheme)}}
Usable(c) == \E k \in DOMAIN MAll(MInit(c.defaults), c.given).list : Entry(MAll(MInit(c.defaults), c.given).list[k]) # ""
Verdict(c) ==
    CASE c.kind = "option" -> IF OptionOk(c) THEN "" ELSE "the option does not follow its rules"
      [] c.kind = "list" ->
            IF AnyRefused(MInit(c.defaults), c.given) THEN (IF c.refused THEN "" ELSE "appended values are silently discarded")
            ELSE IF c.refused THEN "values are refused"
            ELSE IF c.list # MAll(MInit(c.defaults), c.given).list THEN "another list is effective" ELSE ""
      [] c.kind = "schemes" ->
            IF AnyRefused(MInit(c.defaults), c.given) \/ ~Usable(c)
            THEN (IF c.refused THEN "" ELSE "an unusable list of schemes is accepted")
            ELSE IF c.refused THEN "a usable list of schemes is refused"
            ELSE IF Reported(c) # {c.urls[k] : k \in DOMAIN c.urls} THEN "other links are recognized" ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Cases[i']
                v == Verdict(c) IN
            v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v, expected |-> IF c.kind = "schemes" THEN Reported(c) ELSE {}]]))
=============================================================================

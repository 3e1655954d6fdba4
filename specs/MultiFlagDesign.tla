--------------------------- MODULE MultiFlagDesign ---------------------------
(* All sequences of values up to a length. Independent formulation: the      *)
(* effective list is what follows the last empty value, or the defaults and  *)
(* everything when there is none.                                            *)
EXTENDS MultiFlag, FiniteSets, TLC, Json
CONSTANTS Values, MaxLen, MaxDefaults, Mutant, Gen
VARIABLES given, defaults, s
vars == <<given, defaults, s>>
Init == /\ defaults \in UNION {[1..n -> {"d", "a"}] : n \in 0..MaxDefaults}
        /\ given = <<>> /\ s = MInit(defaults)
Step(v) == CASE Mutant = "discard" /\ v = "" -> [st |-> "reset", list |-> <<>>, n |-> 0]
             [] Mutant = "keepdefaults" /\ v = "" /\ s.st = "initial" -> [s EXCEPT !.st = "reset"]
             [] Mutant = "cutoff" /\ v = "" /\ s.st = "reset" -> [s EXCEPT !.list = <<>>, !.st = "initial"]
             [] OTHER -> MSet(s, v)
Next == \E v \in Values :
    /\ Len(given) < MaxLen
    /\ (~Refused(s, v) \/ Mutant = "discard")
    /\ given' = Append(given, v) /\ s' = Step(v) /\ UNCHANGED defaults
Spec == Init /\ [][Next]_vars
RECURSIVE AfterEmpty(_)
AfterEmpty(g) == IF g = <<>> THEN <<>> ELSE IF g[Len(g)] = "" THEN <<>> ELSE Append(AfterEmpty(SubSeq(g, 1, Len(g) - 1)), g[Len(g)])
Expected == IF \E n \in DOMAIN given : given[n] = "" THEN AfterEmpty(given) ELSE defaults \o given
Effective == s.list = Expected
Replayed == LET m == Modified(s) IN
            /\ ~AnyRefused(MInit(defaults), m)
            /\ MAll(MInit(defaults), m).list = s.list
NothingLost == \A a, b \in DOMAIN given : a < b /\ given[a] # "" /\ given[b] = "" => \E k \in 1..a : given[k] = ""
Emit == Gen => PrintT("@@" \o ToJson([defaults |-> defaults, given |-> given]))
=============================================================================

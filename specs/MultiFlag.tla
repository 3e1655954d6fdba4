------------------------------ MODULE MultiFlag ------------------------------
(* Options that may be given several times (C22). State: list and what       *)
(* happened to it: "initial", "appended" to the defaults or "reset".         *)
EXTENDS Naturals, Sequences
MInit(defaults) == [st |-> "initial", list |-> defaults, n |-> Len(defaults)]
Refused(s, v) == v = "" /\ s.st = "appended"
MSet(s, v) ==
    CASE Refused(s, v) -> s
      [] v = "" -> [st |-> "reset", list |-> <<>>, n |-> 0]
      [] s.st = "initial" -> [s EXCEPT !.st = "appended", !.list = Append(@, v)]
      [] OTHER -> [s EXCEPT !.list = Append(@, v)]
(* Values to give again to get the same list. *)
Modified(s) == CASE s.st = "initial" -> <<>>
                 [] s.st = "reset" -> <<"">> \o s.list
                 [] OTHER -> SubSeq(s.list, s.n + 1, Len(s.list))
RECURSIVE MAll(_, _)
MAll(s, vs) == IF vs = <<>> THEN s ELSE MAll(MSet(s, vs[1]), SubSeq(vs, 2, Len(vs)))
RECURSIVE AnyRefused(_, _)
AnyRefused(s, vs) == IF vs = <<>> THEN FALSE ELSE Refused(s, vs[1]) \/ AnyRefused(MSet(s, vs[1]), SubSeq(vs, 2, Len(vs)))
=============================================================================

------------------------------- MODULE Install -------------------------------
(* Creation of a wrapper or manifest step by step (C17, C18): any operation  *)
(* may fail, the process may be killed at any point.                         *)
EXTENDS InstallRules, TLC
CONSTANTS Wanted, Modes, Mutant, MaxFaults
NoTmp == [k |-> "absent", c |-> "", m |-> 0, id |-> 0]
Olds == {NoTmp, [k |-> "other", c |-> "", m |-> 493, id |-> 1]}
        \cup {[k |-> "file", c |-> c, m |-> m, id |-> 1] : c \in {"new", "old", "empty"}, m \in Modes}
VARIABLES old, force, pc, target, tmp, faults, exit
vars == <<old, force, pc, target, tmp, faults, exit>>
Init == /\ old \in Olds /\ force \in BOOLEAN
        /\ pc = "look" /\ target = old /\ tmp = NoTmp /\ faults = 0 /\ exit = ""
Keep(v) == UNCHANGED v
Fault == faults < MaxFaults /\ faults' = faults + 1
End(code) == exit' = code /\ pc' = "end"
Look == /\ pc = "look"
        /\ \/ /\ old.k = "absent"
              /\ pc' = "create" /\ UNCHANGED exit
           \/ /\ old.k = "other" /\ End("fail")
           \/ /\ old.k = "file" /\ old.c = "new"
              /\ IF \A b \in OwnerBits(Wanted) : Bit(old.m, b) THEN End("ok") ELSE pc' = "addmode" /\ UNCHANGED exit
           \/ /\ old.k = "file" /\ old.c # "new"
              /\ IF force \/ Mutant = "noforce" \/ (Mutant = "empty" /\ old.c = "empty")
                 THEN pc' = "create" /\ UNCHANGED exit ELSE End("fail")
        /\ UNCHANGED <<old, force, target, tmp, faults>>
LookFails == pc = "look" /\ Fault /\ End("fail") /\ UNCHANGED <<old, force, target, tmp>>
AddMode == /\ pc = "addmode"
           /\ \/ target' = [target EXCEPT !.m = Completed(@, Wanted)] /\ End("ok") /\ UNCHANGED faults
              \/ target' = target /\ Fault /\ End("fail")
           /\ UNCHANGED <<old, force, tmp>>
Create == /\ pc = "create"
          /\ \/ /\ IF Mutant = "inplace" THEN target' = [k |-> "file", c |-> "empty", m |-> 384, id |-> 2] /\ tmp' = tmp
                   ELSE tmp' = [k |-> "file", c |-> "empty", m |-> 384, id |-> 2] /\ target' = target
                /\ pc' = (IF Mutant = "latemode" THEN "write" ELSE "chmod") /\ UNCHANGED <<faults, exit>>
             \/ Fault /\ End("fail") /\ UNCHANGED <<target, tmp>>
          /\ UNCHANGED <<old, force>>
Failing == IF Mutant = "notidy" THEN End("fail") ELSE pc' = "remove" /\ UNCHANGED exit
Chmod == /\ pc = "chmod"
         /\ \/ /\ IF Mutant = "inplace" THEN target' = [target EXCEPT !.m = Wanted] /\ tmp' = tmp
                  ELSE tmp' = [tmp EXCEPT !.m = Wanted] /\ target' = target
               /\ pc' = "write" /\ UNCHANGED <<faults, exit>>
            \/ /\ Fault /\ UNCHANGED <<target, tmp>>
               /\ IF Mutant = "ignoremode" THEN pc' = "write" /\ UNCHANGED exit ELSE Failing
         /\ UNCHANGED <<old, force>>
Part(c) == IF c = "empty" THEN "part" ELSE "new"
Write == /\ pc = "write"
         /\ \/ /\ IF Mutant = "inplace" THEN target' = [target EXCEPT !.c = Part(@)] /\ tmp' = tmp
                     /\ (IF Part(target.c) = "new" THEN End("ok") ELSE pc' = pc /\ UNCHANGED exit)
                  ELSE tmp' = [tmp EXCEPT !.c = Part(@)] /\ target' = target
                     /\ pc' = (IF Part(tmp.c) = "new" THEN "rename" ELSE pc) /\ UNCHANGED exit
               /\ UNCHANGED faults
            \/ /\ Fault /\ UNCHANGED <<target, tmp>>
               /\ IF Mutant = "ignorewrite" THEN pc' = "rename" /\ UNCHANGED exit ELSE Failing
         /\ UNCHANGED <<old, force>>
Rename == /\ pc = "rename"
          /\ \/ /\ target' = tmp /\ tmp' = NoTmp /\ UNCHANGED faults
                /\ IF Mutant = "latemode" THEN pc' = "latemode" /\ UNCHANGED exit ELSE End("ok")
             \/ Fault /\ Failing /\ UNCHANGED <<target, tmp>>
          /\ UNCHANGED <<old, force>>
LateMode == pc = "latemode" /\ target' = [target EXCEPT !.m = Wanted] /\ End("ok") /\ UNCHANGED <<old, force, tmp, faults>>
Remove == pc = "remove" /\ tmp' = NoTmp /\ End("fail") /\ UNCHANGED <<old, force, target, faults>>
Crash == pc # "end" /\ End("killed") /\ UNCHANGED <<old, force, target, tmp, faults>>
Next == Look \/ LookFails \/ AddMode \/ Create \/ Chmod \/ Write \/ Rename \/ LateMode \/ Remove \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* C18 *)
EveryMoment == Moment(old, force, Wanted, target)
(* C17, C18 *)
InTheEnd == (exit \in {"ok", "fail"}) =>
    /\ Final(<<[old |-> old, w |-> Wanted]>>, force, <<target>>, exit = "ok", IF faults > 0 THEN "x" ELSE "", TRUE)
    /\ tmp = NoTmp
Atomic == Whole(old, Wanted, target)
AtomicEnd == exit \in {"ok", "fail"} => WholeFinal(<<[old |-> old, w |-> Wanted]>>, <<target>>, exit = "ok", IF faults > 0 THEN "x" ELSE "")
Ends == <>(pc = "end")
=============================================================================

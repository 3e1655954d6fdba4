-------------------------------- MODULE Log --------------------------------
(* Where diagnostic messages go (C29). One log file shared by processes of   *)
(* the backend and other writers. Settings: "file", "err" (standard error),  *)
(* "off"; "info" and "install" runs do not serve; "bad" - the file can not   *)
(* be opened. An entry of the file is <<writer, number>>, writer 0 is alien. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, MaxMsg, MaxAlien, Mutant
VARIABLES set, pc, file, err, said, off, served, alien
vars == <<set, pc, file, err, said, off, served, alien>>
Settings == {"file", "err", "off", "info", "install", "bad"}
Init == /\ set \in [Procs -> Settings] /\ pc = [p \in Procs |-> "new"]
        /\ \E n \in 0..1 : file = [i \in 1..n |-> <<0, i>>] /\ alien = n
        /\ err = [p \in Procs |-> <<>>] /\ said = [p \in Procs |-> 0]
        /\ off = [p \in Procs |-> 0] /\ served = {}
Start(p) == /\ pc[p] = "new"
            /\ pc' = [pc EXCEPT ![p] = IF set[p] \in {"file", "err", "off"} \/ (Mutant = "info" /\ set[p] = "info") \/ (Mutant = "bad" /\ set[p] = "bad")
                                       THEN "serve" ELSE "end"]
            /\ file' = IF set[p] = "file" /\ Mutant = "trunc" THEN <<>> ELSE file
            /\ off' = [off EXCEPT ![p] = Len(file')]
            /\ UNCHANGED <<set, err, said, served, alien>>
Serve(p) == pc[p] = "serve" /\ served' = served \cup {p} /\ UNCHANGED <<set, pc, file, err, said, off, alien>>
Put(s, k, e) == IF k <= Len(s) THEN [s EXCEPT ![k] = e] ELSE Append(s, e)
Say(p) == /\ pc[p] = "serve" /\ said[p] < MaxMsg
          /\ LET e == <<p, said[p] + 1>> IN
             /\ file' = IF set[p] # "file" THEN file
                        ELSE IF Mutant = "offset" THEN Put(file, off[p] + 1, e) ELSE Append(file, e)
             /\ err' = IF set[p] = "err" \/ (Mutant = "both" /\ set[p] = "file") \/ (Mutant = "leak" /\ set[p] = "off")
                       THEN [err EXCEPT ![p] = Append(@, e)] ELSE err
          /\ said' = [said EXCEPT ![p] = @ + 1] /\ off' = [off EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<set, pc, served, alien>>
Alien == /\ alien < MaxAlien /\ alien' = alien + 1 /\ file' = Append(file, <<0, alien + 1>>)
         /\ UNCHANGED <<set, pc, err, said, off, served>>
End(p) == pc[p] = "serve" /\ pc' = [pc EXCEPT ![p] = "end"] /\ UNCHANGED <<set, file, err, said, off, served, alien>>
Next == Alien \/ \E p \in Procs : Start(p) \/ Serve(p) \/ Say(p) \/ End(p)
Spec == Init /\ [][Next]_vars
Of(s, p) == SelectSeq(s, LAMBDA e : e[1] = p)
All(p) == [n \in 1..said[p] |-> <<p, n>>]
InPlace == \A p \in Procs : /\ Of(file, p) = (IF set[p] = "file" THEN All(p) ELSE <<>>)
                            /\ err[p] = (IF set[p] = "err" THEN All(p) ELSE <<>>)
AlienKept == Of(file, 0) = [n \in 1..alien |-> <<0, n>>]
OnlyGrows == [][SubSeq(file', 1, Len(file)) = file]_vars
NotServed == \A p \in served : set[p] \in {"file", "err", "off"}
=============================================================================

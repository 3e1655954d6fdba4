----------------------------- MODULE Resources -----------------------------
(* What requests hold while they are served: open note files, child         *)
(* processes (running or ended and not waited for), descriptors that belong  *)
(* to children (pipes, process handles) and tasks of the program.            *)
(* Every request is finished sooner or later with a reply, at each step it   *)
(* may fail. Nothing is held for a request that has been answered; what is   *)
(* held in between is bounded by what is outstanding.                        *)
EXTENDS Naturals, FiniteSets
CONSTANTS Reqs, NFiles, Limit, Mutant
VARIABLES kind, st, files, kids, pipes, tasks, failed
vars == <<kind, st, files, kids, pipes, tasks, failed>>
(* Bounds shared with ResourcesTrace: requests that read at most nf files    *)
(* and nc requests that start processes are outstanding, no is the number of *)
(* all.                                                                      *)
Within(nf, nc, no, file, kid, pipe, task) ==
    /\ file <= nf
    /\ kid <= nc
    /\ pipe <= 6 * nc
    /\ task <= no + 2 * nc

Kinds == {"plain", "files", "cmd"}
Init == /\ kind \in [Reqs -> Kinds]
        /\ st = [r \in Reqs |-> "new"]
        /\ files = {} /\ kids = {} /\ pipes = {} /\ tasks = {} /\ failed = {}
Used == Cardinality(files) + Cardinality(pipes)
Go(r, s) == st' = [st EXCEPT ![r] = s]
Receive(r) == /\ st[r] = "new"
              /\ Go(r, IF kind[r] = "plain" THEN "ready" ELSE IF kind[r] = "files" THEN "open" ELSE "start")
              /\ tasks' = tasks \cup {<<r, "serve">>}
              /\ UNCHANGED <<kind, files, kids, pipes, failed>>
OfR(s, r) == {x \in s : x[1] = r}
(* --------------------------------- files --------------------------------- *)
Next1(r) == Cardinality(OfR(files, r)) + 1
Open(r) == /\ st[r] = "open" /\ Used < Limit
           /\ files' = files \cup {<<r, Next1(r)>>}
           /\ Go(r, "read")
           /\ UNCHANGED <<kind, kids, pipes, tasks, failed>>
(* There is no such file or the table of descriptors is full. *)
OpenFail(r) == /\ st[r] = "open"
               /\ failed' = IF Used >= Limit THEN failed \cup {r} ELSE failed
               /\ files' = IF Mutant = "kept_when_next_fails" THEN files ELSE files \ OfR(files, r)
               /\ Go(r, "ready")
               /\ UNCHANGED <<kind, kids, pipes, tasks>>
Read(r, ok) == /\ st[r] = "read"
               /\ IF ok /\ Next1(r) <= NFiles
                  THEN Go(r, "open") /\ UNCHANGED files
                  ELSE /\ Go(r, "ready")
                       /\ files' = IF ~ok /\ Mutant = "kept_on_error" THEN files ELSE files \ OfR(files, r)
               /\ UNCHANGED <<kind, kids, pipes, tasks, failed>>
(* ------------------------------- processes -------------------------------- *)
Start(r) == /\ st[r] = "start" /\ Used + 2 <= Limit
            /\ pipes' = pipes \cup {<<r, 1>>, <<r, 2>>}
            /\ kids' = kids \cup {<<r, "run">>}
            /\ tasks' = tasks \cup {<<r, "copy">>}
            /\ Go(r, "run")
            /\ UNCHANGED <<kind, files, failed>>
StartFail(r) == /\ st[r] = "start"
                /\ failed' = IF Used + 2 > Limit THEN failed \cup {r} ELSE failed
                /\ pipes' = IF Mutant = "pipes_of_failed_start" /\ Used + 2 <= Limit THEN pipes \cup {<<r, 1>>, <<r, 2>>} ELSE pipes
                /\ Go(r, "ready")
                /\ UNCHANGED <<kind, files, kids, tasks>>
Ends(r) == /\ <<r, "run">> \in kids
           /\ kids' = (kids \ {<<r, "run">>}) \cup {<<r, "ended">>}
           /\ UNCHANGED <<kind, st, files, pipes, tasks, failed>>
Copied(r) == /\ <<r, "copy">> \in tasks /\ <<r, "ended">> \in kids
             /\ tasks' = IF Mutant = "copier_stuck" THEN tasks ELSE tasks \ {<<r, "copy">>}
             /\ pipes' = pipes \ OfR(pipes, r)
             /\ Go(r, "copied")
             /\ UNCHANGED <<kind, files, kids, failed>>
Wait(r) == /\ st[r] = "copied" /\ <<r, "ended">> \in kids
           /\ kids' = IF Mutant = "not_waited" THEN kids ELSE kids \ OfR(kids, r)
           \* a request consists of several runs of the client
           /\ \E s \in {"ready", "start"} : Go(r, s)
           /\ UNCHANGED <<kind, files, pipes, tasks, failed>>
(* The answer does not wait for the client. *)
Early(r) == /\ Mutant = "early_answer" /\ st[r] = "run" /\ Go(r, "ready")
            /\ UNCHANGED <<kind, files, kids, pipes, tasks, failed>>
Answer(r) == /\ st[r] = "ready"
             /\ Go(r, "done")
             /\ tasks' = IF Mutant = "task_kept" /\ kind[r] = "plain" THEN tasks ELSE tasks \ {<<r, "serve">>}
             /\ UNCHANGED <<kind, files, kids, pipes, failed>>
Next == \E r \in Reqs : \/ Receive(r) \/ Open(r) \/ OpenFail(r) \/ Read(r, TRUE) \/ Read(r, FALSE)
                        \/ Start(r) \/ StartFail(r) \/ Ends(r) \/ Copied(r) \/ Wait(r) \/ Early(r) \/ Answer(r)
Spec == Init /\ [][Next]_vars

Out == {r \in Reqs : st[r] \notin {"new", "done"}}
Num(k) == Cardinality({r \in Out : kind[r] = k})
Bounded == Within(NFiles * Num("files"), Num("cmd"), Cardinality(Out), Cardinality(files), Cardinality(kids), Cardinality(pipes), Cardinality(tasks))
Idle == Out = {} => files = {} /\ kids = {} /\ pipes = {} /\ tasks = {}
(* Served one at a time requests never lack descriptors. *)
One == Cardinality(Out) <= 1 => \A r \in Out : r \notin failed
OneAtATime == Cardinality(Out) <= 1
=============================================================================

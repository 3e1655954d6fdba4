------------------------------ MODULE Snapshot ------------------------------
(* Mention queries share one snapshot of the note files, link set queries    *)
(* read the files themselves (C09, C10). Contents of a file are versions.    *)
(* Request kinds: "M" mentions, "L" link set, "O" needs no notes.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Files, MaxVer, MaxReq, Faults, Mutant
VARIABLES cur, load, reads, req
vars == <<cur, load, reads, req>>
Nothing == [f \in Files |-> 0]
Init == /\ cur = [f \in Files |-> 1]
        /\ load = [st |-> "none", got |-> Nothing]
        /\ reads = Nothing                     \* how often the snapshot reads a file
        /\ req = <<>>
Send(k) == /\ Len(req) < MaxReq
           /\ req' = Append(req, [k |-> k, st |-> "sent", got |-> Nothing, lo |-> cur, hi |-> cur, full |-> TRUE])
           /\ UNCHANGED <<cur, load, reads>>
Change(f) == cur[f] < MaxVer /\ cur' = [cur EXCEPT ![f] = @ + 1] /\ UNCHANGED <<load, reads, req>>
Waiting(k) == {r \in DOMAIN req : req[r].k = k /\ req[r].st = "sent"}
Begin == /\ load.st = "none" \/ (Mutant = "retry" /\ load.st = "failed") \/ (Mutant = "again" /\ load.st = "done")
         /\ Waiting("M") # {} \/ Mutant = "eager"
         /\ load' = [st |-> "busy", got |-> Nothing]
         /\ UNCHANGED <<cur, reads, req>>
Read(f) == /\ load.st = "busy" /\ load.got[f] = 0
           /\ load' = [load EXCEPT !.got[f] = cur[f]]
           /\ reads' = [reads EXCEPT ![f] = IF @ < 3 THEN @ + 1 ELSE @]
           /\ UNCHANGED <<cur, req>>
ReadFails(f) == /\ Faults /\ load.st = "busy" /\ load.got[f] = 0
                /\ reads' = [reads EXCEPT ![f] = IF @ < 3 THEN @ + 1 ELSE @]
                /\ load' = IF Mutant = "skip" THEN [load EXCEPT !.got[f] = MaxVer + 1] ELSE [load EXCEPT !.st = "failed"]
                /\ UNCHANGED <<cur, req>>
Finish == load.st = "busy" /\ (\A f \in Files : load.got[f] # 0) /\ load' = [load EXCEPT !.st = "done"] /\ UNCHANGED <<cur, reads, req>>
Answer(r, s, got) == req' = [req EXCEPT ![r].st = s, ![r].got = got, ![r].hi = cur] /\ UNCHANGED <<cur, load, reads>>
AnswerM(r) == /\ r \in Waiting("M")
              /\ \/ load.st = "done" /\ Answer(r, "ok", load.got)
                 \/ load.st = "failed" /\ Answer(r, "err", Nothing)
                 \/ Mutant = "partial" /\ load.st = "busy" /\ (\E f \in Files : load.got[f] # 0) /\ Answer(r, "ok", load.got)
                 \/ Mutant = "partialerr" /\ load.st = "failed" /\ Answer(r, "ok", load.got)
ReadL(r, f) == /\ r \in Waiting("L") /\ req[r].got[f] = 0
               /\ req' = [req EXCEPT ![r].got[f] = IF Mutant = "cached" /\ load.st = "done" THEN load.got[f] ELSE cur[f]]
               /\ UNCHANGED <<cur, load, reads>>
ReadLFails(r, f) == Faults /\ r \in Waiting("L") /\ req[r].got[f] = 0 /\ Answer(r, IF Mutant = "lpartial" THEN "ok" ELSE "err", req[r].got)
AnswerL(r) == r \in Waiting("L") /\ (\A f \in Files : req[r].got[f] # 0) /\ Answer(r, "ok", req[r].got)
AnswerO(r) == r \in Waiting("O") /\ (Mutant = "serial" => load.st # "busy") /\ Answer(r, "ok", Nothing)
Serve == \/ Begin \/ Finish \/ (\E f \in Files : Read(f) \/ ReadFails(f))
         \/ \E r \in DOMAIN req : AnswerM(r) \/ AnswerL(r) \/ AnswerO(r) \/ (\E f \in Files : ReadL(r, f) \/ ReadLFails(r, f))
Next == Serve \/ (\E k \in {"M", "L", "O"} : Send(k)) \/ \E f \in Files : Change(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Serve)

Ok(k) == {r \in DOMAIN req : req[r].k = k /\ req[r].st = "ok"}
Err(k) == {r \in DOMAIN req : req[r].k = k /\ req[r].st = "err"}
OneSnapshot == \A r, s \in Ok("M") : req[r].got = req[s].got
OneOutcome == Ok("M") = {} \/ Err("M") = {}
Complete == \A r \in Ok("M") \cup Ok("L") : \A f \in Files : req[r].got[f] \in 1..MaxVer
ReadOnce == \A f \in Files : reads[f] <= 1
OnDemand == load.st # "none" => \E r \in DOMAIN req : req[r].k = "M"
UpToDate == \A r \in Ok("L") : \A f \in Files : req[r].lo[f] <= req[r].got[f] /\ req[r].got[f] <= req[r].hi[f]
NotBlocked == \A r \in Waiting("O") : ENABLED AnswerO(r)
Settled == \A n \in 1..MaxReq : (n \in DOMAIN req /\ req[n].st = "sent") ~> (n \in DOMAIN req /\ req[n].st # "sent")
=============================================================================

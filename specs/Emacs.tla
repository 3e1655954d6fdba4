-------------------------------- MODULE Emacs -------------------------------
(* Requests that start Emacs clients (C13, C14, C15): every request goes     *)
(* through its steps one by one, any number of requests at once; every step  *)
(* may fail. Arguments of a run are composed first and handed over to the    *)
(* started process later.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Kinds, NReq, NUser, Cap, Mutant
Ids == 1..NReq
User == [k \in 1..NUser |-> "u"]
Fixed == <<"f">>
(* capture, visit: permitted; refuse: other format, URL or file; preview. *)
Plan(kind) == CASE kind = "capture" -> <<"check", "ensure", "own">>
                [] kind = "visit" -> <<"ensure", "own">>
                [] OTHER -> <<>>
Own(i, step) == IF step = "own" THEN <<"own", ToString(i)>> ELSE <<"eval", step>>
Args(i, step) == User \o Fixed \o Own(i, step)

VARIABLES kind, st, arr, runs
vars == <<kind, st, arr, runs>>
(* st[i]: pc - "new", "idle", "built", "run", "ok", "error", "preview"; step; argv. *)
Init == /\ kind \in [Ids -> Kinds]
        /\ st = [i \in Ids |-> [pc |-> "new", step |-> 1, argv |-> <<>>]]
        /\ arr = [k \in 1..Cap |-> IF k <= NUser THEN "u" ELSE "-"]
        /\ runs = <<>>
Set(i, pc, step, argv) == st' = [st EXCEPT ![i] = [pc |-> pc, step |-> step, argv |-> argv]]
Receive(i) == /\ st[i].pc = "new"
              /\ Set(i, CASE kind[i] = "refuse" -> IF Mutant = "norefuse" THEN "idle" ELSE "error"
                          [] kind[i] = "preview" -> "preview" [] OTHER -> "idle", 1, <<>>)
              /\ UNCHANGED <<kind, arr, runs>>
StepOf(i) == Plan(IF kind[i] = "refuse" THEN "visit" ELSE kind[i])[st[i].step]
Build(i) ==
    /\ st[i].pc = "idle"
    /\ LET a == Args(i, StepOf(i)) IN
       IF Mutant = "shared" /\ Len(a) <= Cap
       THEN /\ arr' = [k \in 1..Cap |-> IF k <= Len(a) THEN a[k] ELSE arr[k]]
            /\ Set(i, "built", st[i].step, a)
       ELSE Set(i, "built", st[i].step, a) /\ UNCHANGED arr
    /\ UNCHANGED <<kind, runs>>
Start(i) ==
    /\ st[i].pc = "built"
    /\ LET a == st[i].argv
           real == IF Mutant = "shared" /\ Len(a) <= Cap THEN SubSeq(arr, 1, Len(a)) ELSE a IN
       runs' = Append(runs, [id |-> i, step |-> StepOf(i), argv |-> real, res |-> "run"])
    /\ Set(i, "run", st[i].step, st[i].argv)
    /\ UNCHANGED <<kind, arr>>
RunOf(i) == CHOOSE n \in DOMAIN runs : runs[n].id = i /\ runs[n].res = "run"
Finish(i, res) ==
    /\ st[i].pc = "run"
    /\ runs' = [runs EXCEPT ![RunOf(i)].res = res]
    /\ LET last == st[i].step = Len(Plan(kind[i])) IN
       IF res = "fail" /\ ~(Mutant = "ignore" /\ last) THEN Set(i, "error", st[i].step, <<>>)
       ELSE IF last THEN Set(i, "ok", st[i].step, <<>>) ELSE Set(i, "idle", st[i].step + 1, <<>>)
    /\ UNCHANGED <<kind, arr>>
Next == \E i \in Ids : Receive(i) \/ Build(i) \/ Start(i) \/ Finish(i, "ok") \/ Finish(i, "fail")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Mine(i) == SelectSeq(runs, LAMBDA r : r.id = i)
(* C15 *)
OwnArguments == \A n \in DOMAIN runs : runs[n].argv = Args(runs[n].id, runs[n].step)
(* C13, C14: steps in order, each one after success of the previous one. *)
InOrder == \A i \in Ids :
    LET m == Mine(i) IN
    /\ Len(m) <= Len(Plan(kind[i]))
    /\ \A n \in DOMAIN m : m[n].step = Plan(kind[i])[n]
    /\ \A n \in DOMAIN m : n < Len(m) => m[n].res = "ok"
NothingForRefused == \A i \in Ids : kind[i] \in {"refuse", "preview"} => Mine(i) = <<>>
Honest == \A i \in Ids :
    LET m == Mine(i) IN
    /\ st[i].pc = "ok" <=> (Plan(kind[i]) # <<>> /\ Len(m) = Len(Plan(kind[i])) /\ m[Len(m)].res = "ok")
    /\ (st[i].pc = "error" /\ kind[i] # "refuse") => m # <<>> /\ m[Len(m)].res = "fail"
    /\ st[i].pc = "preview" => kind[i] = "preview"
Settled == <>(\A i \in Ids : st[i].pc \in {"ok", "error", "preview"})
=============================================================================

-------------------------------- MODULE Cli --------------------------------
(* The client tool (C28): what it asks the backend for each subcommand, and  *)
(* its life from the command line to the exit status.                        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Mutant
Ops == {"hello", "capture", "mentions", "visit", "set"}
(* ------------------------------- requests --------------------------------- *)
Method(op) == CASE op = "hello" -> "linkremark.hello" [] op = "capture" -> "linkremark.capture"
                [] op = "mentions" -> "linkremark.urlMentions" [] op = "visit" -> "linkremark.visit"
                [] op = "set" -> "linkremark.linkSet"
Empty == [variants |-> <<>>, prefix |-> <<>>, file |-> "", line |-> 0, url |-> "", format |-> "", version |-> ""]
(* Parameters for arguments args, file and line are those of a visit. *)
Params(op, args, file, line) ==
    CASE op = "mentions" -> [Empty EXCEPT !.variants = args]
      [] op = "set" -> [Empty EXCEPT !.prefix = args]
      [] op = "visit" -> [Empty EXCEPT !.file = file, !.line = line]
      [] op = "capture" -> [Empty EXCEPT !.url = args[1], !.format = "org-protocol", !.version = "0.2"]
      [] OTHER -> Empty
(* --------------------------------- life ----------------------------------- *)
(* usage: arguments are right; starts: the backend can be started            *)
(* reply: ok, err, break (not an answer, end of output)                      *)
(* exit of the backend after its input ends: 0 or not                        *)
VARIABLES usage, starts, pc, sent, reply, shown, code, status
vars == <<usage, starts, pc, sent, reply, shown, code, status>>
Init == /\ usage \in BOOLEAN /\ starts \in BOOLEAN
        /\ pc = "begin" /\ sent = 0 /\ reply = "" /\ shown = FALSE /\ code = 99 /\ status = 99
Quit(c) == pc' = "end" /\ code' = c /\ UNCHANGED <<usage, starts, sent, reply, shown, status>>
Begin == /\ pc = "begin"
         /\ IF ~starts \/ ~usage THEN Quit(IF Mutant = "zero" THEN 0 ELSE 1)
            ELSE pc' = "ask" /\ UNCHANGED <<usage, starts, sent, reply, shown, code, status>>
Ask == pc = "ask" /\ sent' = sent + (IF Mutant = "twice" THEN 2 ELSE 1) /\ pc' = "wait" /\ UNCHANGED <<usage, starts, reply, shown, code, status>>
Answered(a) == pc = "wait" /\ reply = "" /\ reply' = a /\ UNCHANGED <<usage, starts, pc, sent, shown, code, status>>
Take == /\ pc = "wait" /\ reply # ""
        /\ IF reply = "ok" THEN pc' = "close" /\ shown' = TRUE /\ UNCHANGED <<usage, starts, sent, reply, code, status>>
           ELSE IF Mutant = "printerr" /\ reply = "err" THEN pc' = "end" /\ shown' = TRUE /\ code' = 1 /\ UNCHANGED <<usage, starts, sent, reply, status>>
           ELSE Quit(IF Mutant = "errok" THEN 0 ELSE 1)
Ended(s) == pc = "close" /\ status = 99 /\ status' = s /\ UNCHANGED <<usage, starts, pc, sent, reply, shown, code>>
Reap == pc = "close" /\ (status # 99 \/ Mutant = "nowait") /\ Quit(IF status = 0 THEN 0 ELSE 1)
Next == Begin \/ Ask \/ Take \/ Reap \/ (\E a \in {"ok", "err", "break"} : Answered(a)) \/ \E s \in 0..1 : Ended(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ------------------------------ what is seen ------------------------------- *)
(* A result is printed if and only if there is one; zero is for success.     *)
Judged(good, n, a, printed, c, s) ==
    IF ~good THEN n = 0 /\ ~printed /\ c # 0
    ELSE /\ n = 1
         /\ printed = (a = "ok")
         /\ (a # "ok" => c # 0)
         /\ (a = "ok" /\ s = 0 => c = 0)
EndOk == pc = "end" => Judged(usage /\ starts, sent, reply, shown, code, status)
ReapsAll == pc = "end" /\ reply = "ok" => status # 99
Ends == <>(pc = "end")
=============================================================================

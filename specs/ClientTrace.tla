---------------------------- MODULE ClientTrace ----------------------------
(* Recorded sessions of the client library: events of the environment and of *)
(* the program are steps of Client.tla, steps inside the library are hidden. *)
(*  ev: [e, c, k, v]                                                         *)
(*   start  k - "ok", "none", "bad" command; v = 1 if starting has failed    *)
(*   issue, bad  call c with a good or a bad parameter                       *)
(*   recv   the backend reads request c (0 - a request nobody has issued)    *)
(*   reply  frame k with value v for call c; other  k - stray, break, eof    *)
(*   deaf, exit (v - status), ineof, close                                   *)
(*   done   call c has got outcome k, v                                      *)
(*   closed v = 1 if an error is reported; k = "gone" if the process does    *)
(*          not exist any more                                               *)
(*   stuck  call c gets no outcome for long                                  *)
EXTENDS Client, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, n, rep
tvars == <<t, n, rep>>
TInit == Init /\ t \in DOMAIN Traces /\ n = 1 /\ rep = {}
Ev == Traces[t].ev[n]
Is(e) == n <= Len(Traces[t].ev) /\ Ev.e = e /\ n' = n + 1 /\ t' = t
Start == Is("start") /\ (Ev.v = 1) = (Ev.k # "ok") /\ UNCHANGED <<vars, rep>>
TIssue == Is("issue") /\ Issue(Ev.c) /\ rep' = rep
TBad == Is("bad") /\ IssueBad(Ev.c) /\ rep' = rep
TRecv == Is("recv") /\ Ev.c \in Calls /\ Recv(Ev.c) /\ rep' = rep
TReply == Is("reply") /\ Reply(Ev.k, Ev.c, Ev.v) /\ rep' = rep
TOther == Is("other") /\ Other(Ev.k) /\ rep' = rep
TDeaf == Is("deaf") /\ Deaf /\ rep' = rep
TExit == Is("exit") /\ Exit(Ev.v) /\ rep' = rep
TInEof == Is("ineof") /\ InputEnds /\ rep' = rep
TClose == Is("close") /\ Close /\ rep' = rep
\* requests that have not been sent completely before closing may be reported as well
Unsent == pipe # {} \/ \E c \in Calls : call[c].k = "fail" /\ c \notin seen
TClosed == /\ Is("closed") /\ Ev.k = "gone" /\ Closed /\ rep' = rep
           /\ CloseResult > 0 => Ev.v = 1
           /\ Ev.v = 1 => CloseResult > 0 \/ Unsent
TDone == /\ Is("done") /\ Ev.c \notin rep /\ rep' = rep \cup {Ev.c}
         /\ call[Ev.c] = [st |-> "done", k |-> Ev.k, v |-> Ev.v]
         /\ UNCHANGED vars
\* waiting is right only as long as nothing has come that ends the call
Stuck == /\ Is("stuck") /\ call[Ev.c].st = "out" /\ rd = "run" /\ cl = "no" /\ be = Up
         /\ \A i \in DOMAIN wire : wire[i].k \notin {"break", "eof"} /\ wire[i].c # Ev.c
         /\ UNCHANGED <<vars, rep>>
End == /\ Is("end") /\ cl = "closed" /\ (\A c \in Calls : call[c].st # "new" => c \in rep) /\ UNCHANGED <<vars, rep>>
Hidden == Inside /\ n <= Len(Traces[t].ev) /\ UNCHANGED tvars
TNext == \/ Start \/ TIssue \/ TBad \/ TRecv \/ TReply \/ TOther \/ TDeaf \/ TExit \/ TInEof \/ TClose \/ TClosed \/ TDone
         \/ Stuck \/ End \/ Hidden
Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (n = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, n>>])))
=============================================================================

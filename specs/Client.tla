------------------------------- MODULE Client -------------------------------
(* The client side of the messaging library with a backend it has started    *)
(* (C27). Calls are issued concurrently, the backend answers them in any     *)
(* order, answers something else, breaks the protocol, ends, is closed.      *)
(* Frames from the backend: ok (result v), err (error v), typ (a result that *)
(* does not fit the caller's type), stray (no such call), break, eof.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Calls, Vals, Statuses, MaxWire, Mutant
VARIABLES call, pipe, seen, wire, rd, be, cl, ineof, had, deaf
\* call[c]: [st, k, v]; st - new, out, done; outcome k - ok, err, typ, fail, bad
\* pipe: requests written and not read, seen: requests read by the backend
\* rd: the reader of answers; be: -1 while the backend runs, exit status after
\* cl: no, closing, closed; ineof: end of its input has reached the backend
vars == <<call, pipe, seen, wire, rd, be, cl, ineof, had, deaf>>
Up == -1
New == [st |-> "new", k |-> "", v |-> 0]
Init == /\ call = [c \in Calls |-> New] /\ pipe = {} /\ seen = {} /\ wire = <<>>
        /\ rd = "run" /\ be = Up /\ cl = "no" /\ ineof = FALSE /\ had = {} /\ deaf = FALSE
Out == {c \in Calls : call[c].st = "out"}
Done(c, k, v) == [call EXCEPT ![c] = [st |-> "done", k |-> k, v |-> v]]
Fail(s) == [c \in Calls |-> IF c \in s THEN [st |-> "done", k |-> "fail", v |-> 0] ELSE call[c]]

Issue(c) == /\ call[c].st = "new"
            /\ \/ /\ rd = "run" /\ cl = "no" /\ ~deaf
                  /\ call' = [call EXCEPT ![c].st = "out"] /\ pipe' = pipe \cup {c}
               \/ /\ (rd = "dead" \/ cl # "no" \/ be # Up \/ deaf)
                  /\ call' = IF Mutant = "late" THEN [call EXCEPT ![c].st = "out"] ELSE Done(c, "fail", 0)
                  /\ pipe' = pipe
            /\ UNCHANGED <<seen, wire, rd, be, cl, ineof, had, deaf>>
\* the parameter can not be encoded
IssueBad(c) == /\ call[c].st = "new"
               /\ \/ call' = IF Mutant = "badkills" THEN [Fail(Out) EXCEPT ![c] = [st |-> "done", k |-> "bad", v |-> 0]] ELSE Done(c, "bad", 0)
                  \/ (rd = "dead" \/ cl # "no") /\ call' = Done(c, "fail", 0)
               /\ pipe' = IF Mutant = "badsent" THEN pipe \cup {c} ELSE pipe
               /\ UNCHANGED <<seen, wire, rd, be, cl, ineof, had, deaf>>
Recv(c) == /\ be = Up /\ c \in pipe /\ pipe' = pipe \ {c} /\ seen' = seen \cup {c}
           /\ UNCHANGED <<call, wire, rd, be, cl, ineof, had, deaf>>
\* the backend stops reading requests, it may answer those it has got
Deaf == be = Up /\ cl = "no" /\ ~deaf /\ pipe = {} /\ deaf' = TRUE /\ UNCHANGED <<call, pipe, seen, wire, rd, be, cl, ineof, had>>
Put(f) == wire' = Append(wire, f)
Reply(k, c, v) == /\ be = Up /\ k \in {"ok", "err", "typ"} /\ c \in seen /\ Len(wire) < MaxWire
                  /\ Put([k |-> k, c |-> c, v |-> v])
                  /\ had' = had \cup {<<k, c, v>>}
                  /\ UNCHANGED <<call, pipe, seen, rd, be, cl, ineof, deaf>>
Other(k) == /\ be = Up /\ k \in {"stray", "break", "eof"} /\ Len(wire) < MaxWire
            /\ Put([k |-> k, c |-> 0, v |-> 0])
            /\ UNCHANGED <<call, pipe, seen, rd, be, cl, ineof, had, deaf>>
Exit(s) == /\ be = Up /\ be' = s /\ Put([k |-> "eof", c |-> 0, v |-> 0])
           /\ UNCHANGED <<call, pipe, seen, rd, cl, ineof, had, deaf>>
InputEnds == /\ be = Up /\ ~ineof /\ ~deaf /\ cl # "no" /\ ineof' = TRUE
             /\ UNCHANGED <<call, pipe, seen, wire, rd, be, cl, had, deaf>>
Die(rest) == /\ rd' = "dead"
             /\ call' = IF Mutant = "hang" THEN call ELSE Fail(Out)
             /\ wire' = rest
Deliver == /\ rd = "run" /\ wire # <<>>
           /\ LET f == Head(wire)
                  tail == Tail(wire)
                  x == IF Mutant = "mixed" /\ f.k = "ok" /\ Out # {} THEN CHOOSE c \in Out : TRUE ELSE f.c IN
              CASE f.k \in {"break", "eof"} -> Die(tail)
                [] f.k = "stray" -> IF Mutant = "straykills" THEN Die(tail) ELSE call' = call /\ rd' = rd /\ wire' = tail
                \* net/rpc gives up after a result that does not fit, to go on would be right too
                [] f.k = "typ" -> LET own == IF call[x].st = "out" THEN Done(x, "typ", 0) ELSE call IN
                                  \/ call' = own /\ rd' = rd /\ wire' = tail
                                  \/ /\ call[x].st = "out" /\ rd' = "dead" /\ wire' = tail
                                     /\ call' = [c \in Calls |-> IF own[c].st = "out" THEN [st |-> "done", k |-> "fail", v |-> 0] ELSE own[c]]
                [] OTHER -> /\ call' = IF call[x].st = "out" THEN Done(x, f.k, f.v) ELSE call
                            /\ rd' = rd /\ wire' = tail
           /\ UNCHANGED <<pipe, seen, be, cl, ineof, had, deaf>>
Close == /\ cl = "no" /\ cl' = "closing" /\ UNCHANGED <<call, pipe, seen, wire, rd, be, ineof, had, deaf>>
\* output of the backend is closed at the side of the client
Abandon == /\ cl # "no" /\ rd = "run" /\ Die(wire) /\ UNCHANGED <<pipe, seen, be, cl, ineof, had, deaf>>
Closed == /\ cl = "closing" /\ (be # Up \/ Mutant = "noreap") /\ cl' = "closed"
          /\ UNCHANGED <<call, pipe, seen, wire, rd, be, ineof, had, deaf>>
CloseResult == IF be = 0 \/ Mutant = "lost" THEN 0 ELSE be
Inside == Deliver \/ Abandon
Next == \/ Inside \/ Close \/ Closed \/ InputEnds \/ Deaf
        \/ \E c \in Calls : Issue(c) \/ IssueBad(c) \/ Recv(c) \/ (\E k \in {"ok", "err", "typ"}, v \in Vals : Reply(k, c, v))
        \/ \E k \in {"stray", "break", "eof"} : Other(k)
        \/ \E s \in Statuses : Exit(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Abandon) /\ WF_vars(Closed)

OwnAnswer == \A c \in Calls : call[c].st = "done" /\ call[c].k \in {"ok", "err"} => <<call[c].k, c, call[c].v>> \in had
OnlyOwnErrors == \A c \in Calls : /\ call[c].k = "fail" => rd = "dead" \/ cl # "no" \/ be # Up \/ deaf
                                  /\ call[c].k = "typ" => \E v \in Vals : <<"typ", c, v>> \in had
NothingSentForBad == \A c \in Calls : call[c].k = "bad" => c \notin pipe \cup seen
NoneLeft == rd = "dead" => Out = {}
Reaped == cl = "closed" => be # Up
Status == cl = "closed" /\ be > 0 => CloseResult # 0
Live == rd = "run" /\ (\A i \in DOMAIN wire : wire[i].k \in {"stray", "ok", "err"}) /\ cl = "no" /\ be = Up
AnswerComes == \A c \in Calls : (\E i \in DOMAIN wire : wire[i].c = c) /\ Live ~> call[c].st = "done"
NoHang == \A c \in Calls : (call[c].st = "out" /\ (be # Up \/ cl # "no")) ~> call[c].st = "done"
BreakEnds == (\E i \in DOMAIN wire : wire[i].k = "break") ~> (rd = "dead")
KillsOnlyWhenBroken == [][rd' = "dead" /\ rd = "run" => cl # "no" \/ Head(wire).k \in {"break", "eof", "typ"}]_vars
Settles == \A c \in Calls : [][call[c].st = "done" => call'[c] = call[c]]_vars
=============================================================================

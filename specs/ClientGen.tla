----------------------------- MODULE ClientGen -----------------------------
(* Plans of sessions: the steps of the environment in a random behaviour of  *)
(* Client.tla up to the end of the backend and closing.                      *)
EXTENDS Client, Json
VARIABLE plan
P(a, c, x, v) == plan' = Append(plan, [a |-> a, c |-> c, k |-> x, v |-> v])
Late == Cardinality({c \in Calls : call[c].st # "new"}) >= 2
GInit == Init /\ plan = <<>>
GNext == /\ cl # "closed"
         /\ \/ Inside /\ plan' = plan
            \/ Closed /\ plan' = plan
            \/ InputEnds /\ plan' = plan
            \/ Late /\ Close /\ P("close", 0, "", 0)
            \/ Late /\ Deaf /\ P("deaf", 0, "", 0)
            \/ \E c \in Calls : \/ Issue(c) /\ P("issue", c, "", 0)
                                \/ Recv(c) /\ plan' = plan
            \/ \E c \in Calls : c % 3 = 2 /\ IssueBad(c) /\ P("bad", c, "", 0)
            \/ \E c \in Calls, x \in {"ok", "err", "typ"}, v \in Vals : Reply(x, c, v) /\ P("reply", c, x, v)
            \/ \E x \in {"stray", "break", "eof"} : (x = "stray" \/ Late) /\ Other(x) /\ P("other", 0, x, 0)
            \/ \E s \in Statuses : Late /\ Exit(s) /\ P("exit", 0, "", s)
Emit == (cl = "closed" /\ TLCGet("level") > 1) => PrintT("@@" \o ToJson([plan |-> plan]))
=============================================================================

---------------------------- MODULE AddonClient -----------------------------
(* The RPC client of the example add-on (C30). The browser provides ports:   *)
(* connections to the backend. A port may get an error before the event of   *)
(* its end is delivered. Events:                                             *)
(*  send  c, x   message c is sent; x - "": fine, "post": postMessage throws,*)
(*               "conn": connectNative throws if it is called                *)
(*  reply c, k, v  reply to c through the port where c has been posted:      *)
(*               k - "ok" (result v), "err" (error v), "bad" (neither)       *)
(*  junk  v      a message that is not a reply to anything                   *)
(*  error p      the port gets an error                                      *)
(*  gone p       the port has disconnected                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Calls, MaxPort, Vals, Falsy, Defects
VARIABLES st, had
vars == <<st, had>>
Empty == [cur |-> 0, n |-> 0, err |-> {}, gone |-> {}, via |-> [c \in Calls |-> 0], res |-> [c \in Calls |-> <<"none", 0>>]]
Settle(s, c, k, v) == [s EXCEPT !.res[c] = IF s.res[c][1] = "out" \/ "twice" \in Defects THEN <<k, v>> ELSE s.res[c]]
Usable(s) == s.cur # 0 /\ (s.cur \notin s.err \/ "stale" \in Defects)
Send(s, c, x) == IF ~Usable(s) /\ x = "conn" THEN [s EXCEPT !.res[c] = <<"throw", 0>>]
                 ELSE LET t == IF Usable(s) THEN s ELSE [s EXCEPT !.n = s.n + 1, !.cur = s.n + 1] IN
                      IF x = "post" THEN [t EXCEPT !.res[c] = IF "leak" \in Defects THEN <<"out", 0>> ELSE <<"throw", 0>>]
                      ELSE [t EXCEPT !.res[c] = <<"out", 0>>, !.via[c] = t.cur]
Reply(s, c, k, v) == IF k = "ok" /\ v \in Falsy /\ "falsy" \in Defects THEN Settle(s, c, "bad", 0) ELSE Settle(s, c, k, v)
Gone(s, p) == LET lost == {c \in Calls : s.res[c][1] = "out" /\ (s.via[c] = p \/ "oldport" \in Defects)} IN
              [s EXCEPT !.gone = s.gone \cup {p},
                        !.cur = IF (s.cur = p /\ "keep" \notin Defects) \/ "oldport" \in Defects THEN 0 ELSE s.cur,
                        !.res = [c \in Calls |-> IF c \in lost /\ "hang" \notin Defects THEN <<"lost", 0>> ELSE s.res[c]]]
Step(s, e) == CASE e.a = "send" -> Send(s, e.c, e.k)
                [] e.a = "reply" -> Reply(s, e.c, e.k, e.v)
                [] e.a = "junk" -> s
                [] e.a = "error" -> [s EXCEPT !.err = s.err \cup {e.p}]
                [] e.a = "gone" -> Gone(s, e.p)
E(a, c, p, k, v) == [a |-> a, c |-> c, p |-> p, k |-> k, v |-> v]
Events == {E("send", c, 0, x, 0) : c \in {c \in Calls : st.res[c][1] = "none"}, x \in {"", "post", "conn"}}
          \cup {E("reply", c, st.via[c], k, v) : c \in {c \in Calls : st.via[c] # 0 /\ st.via[c] \notin st.gone}, k \in {"ok", "err"}, v \in Vals}
          \cup {E("reply", c, st.via[c], "bad", 0) : c \in {c \in Calls : st.via[c] # 0 /\ st.via[c] \notin st.gone}}
          \cup {E("junk", 0, p, "", v) : p \in (1..st.n) \ st.gone, v \in {1}}
          \cup {E(a, 0, p, "", 0) : a \in {"error", "gone"}, p \in (1..st.n) \ st.gone}
Init == st = Empty /\ had = {}
Do(e) == /\ e.a = "send" => st.n < MaxPort \/ (st.cur # 0 /\ st.cur \notin st.err)
         /\ e.a = "reply" => Cardinality({h \in had : h[1] = e.c}) < 2
         /\ st' = Step(st, e) /\ had' = IF e.a = "reply" THEN had \cup {<<e.c, e.k, e.v>>} ELSE had
Next == \E e \in Events : Do(e)
Spec == Init /\ [][Next]_vars
OwnReply == \A c \in Calls : st.res[c][1] \in {"ok", "err", "bad"} => <<c, st.res[c][1], st.res[c][2]>> \in had
Answered == \A c \in Calls : st.res[c][1] = "out" => ~\E k \in {"ok", "err", "bad"}, v \in Vals \cup {0} : <<c, k, v>> \in had
LostWithPort == \A c \in Calls : st.res[c][1] = "lost" => st.via[c] \in st.gone
NoneLeft == \A c \in Calls : st.res[c][1] = "out" => st.via[c] # 0 /\ st.via[c] \notin st.gone
Once == [][\A c \in Calls : st.res[c][1] \notin {"none", "out"} => st'.res[c] = st.res[c]]_vars
GoodPort == [][\A c \in Calls : st.via[c] = 0 /\ st'.via[c] # 0 => st'.via[c] \notin st.gone \cup st.err]_vars
NoNeedless == [][st'.n > st.n => st.cur = 0 \/ st.cur \in st.err]_vars
=============================================================================

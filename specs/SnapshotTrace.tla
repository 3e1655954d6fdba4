---------------------------- MODULE SnapshotTrace ----------------------------
(* Recorded sessions: requests, openings and failures of note files, changes *)
(* of the files, answers.                                                    *)
(*  cfg: links[f][v] - addresses in version v of file f                      *)
(*  ev:  [e, r, k, q, limit, f, v, ok, err, total, urls]                     *)
(*   send   r - request, k - kind "M", "L", "O", "X" (mentions without       *)
(*          addresses); q - addresses or prefixes                            *)
(*   open   f is opened (ok) or that fails;  rfail - reading of f fails      *)
(*   change file f gets version v                                            *)
(*   recv   answer of r: err, or urls and total (mentions), f - the file if  *)
(*          the answer consists of just one file                             *)
(*   stuck  an answer that needs no waiting has not come: not explained      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, cur, load, req
vars == <<t, k, cur, load, req>>
C == Traces[t].cfg
Files == DOMAIN C.links
Nothing == [f \in Files |-> 0]
TInit == /\ t \in DOMAIN Traces /\ k = 1
         /\ cur = [f \in DOMAIN Traces[t].cfg.links |-> 1]
         /\ load = [failed |-> FALSE, got |-> [f \in DOMAIN Traces[t].cfg.links |-> 0]]
         /\ req = [r \in {} |-> 0]
Ev == Traces[t].ev[k]
Is(e) == k <= Len(Traces[t].ev) /\ Ev.e = e /\ k' = k + 1 /\ t' = t
Out(kind) == {r \in DOMAIN req : req[r].k = kind /\ ~req[r].done}
Send == /\ Is("send")
        /\ req' = (Ev.r :> [k |-> Ev.k, q |-> Ev.q, limit |-> Ev.limit, got |-> Nothing, failed |-> FALSE, done |-> FALSE]) @@ req
        /\ UNCHANGED <<cur, load>>
Change == Is("change") /\ cur' = [cur EXCEPT ![Ev.f] = Ev.v] /\ UNCHANGED <<load, req>>
OpenLoad == /\ Is("open") /\ Out("M") # {} /\ ~load.failed /\ load.got[Ev.f] = 0
            /\ load' = IF Ev.ok THEN [load EXCEPT !.got[Ev.f] = cur[Ev.f]] ELSE [load EXCEPT !.failed = TRUE]
            /\ UNCHANGED <<cur, req>>
OpenSet == /\ Is("open") /\ \E r \in Out("L") : /\ req[r].got[Ev.f] = 0 /\ ~req[r].failed
                                                /\ req' = IF Ev.ok THEN [req EXCEPT ![r].got[Ev.f] = cur[Ev.f]] ELSE [req EXCEPT ![r].failed = TRUE]
           /\ UNCHANGED <<cur, load>>
ReadFails == /\ Is("rfail")
             /\ \/ Out("M") # {} /\ load.got[Ev.f] # 0 /\ load' = [load EXCEPT !.failed = TRUE] /\ UNCHANGED req
                \/ \E r \in Out("L") : req[r].got[Ev.f] # 0 /\ req' = [req EXCEPT ![r].failed = TRUE] /\ UNCHANGED load
             /\ UNCHANGED cur
Elems(s) == {s[n] : n \in DOMAIN s}
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Found(q, got) == [f \in Files |-> SelectSeq(C.links[f][got[f]], LAMBDA u : u \in Elems(q))]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Sum(s, n - 1) + Len(s[n])
All(got) == \A f \in Files : got[f] # 0
MentionsOk(x) ==
    IF load.failed THEN Ev.err
    ELSE /\ All(load.got) /\ ~Ev.err
         /\ LET found == Found(x.q, load.got)
                total == Sum(found, Len(found)) IN
            /\ Ev.total = (IF Ev.f = 0 THEN total ELSE Len(found[Ev.f]))
            /\ Elems(Ev.urls) \subseteq UNION {Elems(found[f]) : f \in Files}
            /\ x.limit >= total => Elems(Ev.urls) = UNION {Elems(found[f]) : f \in Files}
SetOk(x) ==
    IF x.failed THEN Ev.err
    ELSE /\ All(x.got) /\ ~Ev.err
         /\ Elems(Ev.urls) = UNION {{u \in Elems(C.links[f][x.got[f]]) : \E n \in DOMAIN x.q : HasPrefix(u, x.q[n])} : f \in Files}
Recv == /\ Is("recv") /\ Ev.r \in DOMAIN req /\ ~req[Ev.r].done
        /\ LET x == req[Ev.r] IN
           CASE x.k = "M" -> MentionsOk(x)
             [] x.k = "L" -> SetOk(x)
             [] x.k = "X" -> Ev.err
             [] OTHER -> ~Ev.err
        /\ req' = [req EXCEPT ![Ev.r].done = TRUE]
        /\ UNCHANGED <<cur, load>>
Eof == Is("eof") /\ (\A r \in DOMAIN req : req[r].done) /\ UNCHANGED <<cur, load, req>>
TNext == Send \/ Change \/ OpenLoad \/ OpenSet \/ ReadFails \/ Recv \/ Eof
Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (k = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, k>>])))
=============================================================================

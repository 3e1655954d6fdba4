--------------------------- MODULE ResourcesTrace ---------------------------
(* What was seen of a real backend: requests, responses, and what the        *)
(* process held. An observation ("obs") is judged by what was outstanding    *)
(* when it was started ("look").                                             *)
(*  req: i, k (plain, files, cmd), q (sort of the request)                   *)
(*  resp: i, out    obs: file, kid, pipe   dump: task    client: fds         *)
EXTENDS Resources, Sequences, TLC, Json, IOUtils
CONSTANT TaskBase
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, p, out, mark, outcome
tvars == <<t, p, out, mark, outcome>>
Frozen == UNCHANGED vars
TInit == /\ t \in DOMAIN Traces /\ p = 1 /\ out = [i \in {} |-> ""]
         /\ mark = [nf |-> 0, nc |-> 0, no |-> 0] /\ outcome = [q \in {} |-> ""]
         /\ kind = <<>> /\ st = <<>> /\ files = {} /\ kids = {} /\ pipes = {} /\ tasks = {} /\ failed = {}
Ev == Traces[t].ev[p]
Is(e) == p <= Len(Traces[t].ev) /\ Ev.e = e /\ p' = p + 1 /\ t' = t /\ Frozen
Count(k) == Cardinality({i \in DOMAIN out : out[i].k = k})
Mark == [nf |-> Count("files"), nc |-> Count("cmd"), no |-> Cardinality(DOMAIN out)]
Req == Is("req") /\ Ev.i \notin DOMAIN out /\ out' = (Ev.i :> [k |-> Ev.k, q |-> Ev.q]) @@ out /\ UNCHANGED <<mark, outcome>>
Resp == /\ Is("resp") /\ Ev.i \in DOMAIN out
        /\ LET q == out[Ev.i].q IN
           /\ q \in DOMAIN outcome => outcome[q] = Ev.out
           /\ outcome' = (q :> Ev.out) @@ outcome
        /\ out' = [i \in DOMAIN out \ {Ev.i} |-> out[i]]
        /\ UNCHANGED mark
Look == Is("look") /\ mark' = Mark /\ UNCHANGED <<out, outcome>>
Obs == /\ Is("obs") /\ Within(Traces[t].nfiles * mark.nf, mark.nc, mark.no, Ev.file, Ev.kid, Ev.pipe, 0)
       /\ UNCHANGED <<out, mark, outcome>>
(* Nothing of the backend is passed to a client. *)
Client == Is("client") /\ Ev.fds = 0 /\ UNCHANGED <<out, mark, outcome>>
Dump == /\ Is("dump") /\ Within(Traces[t].nfiles * Count("files"), Count("cmd"), Cardinality(DOMAIN out) + TaskBase, 0, 0, 0, Ev.task)
        /\ UNCHANGED <<out, mark, outcome>>
(* The driver reports that a request is not answered. *)
TNext == Req \/ Resp \/ Look \/ Obs \/ Client \/ Dump
Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (p = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, p>>])))
=============================================================================

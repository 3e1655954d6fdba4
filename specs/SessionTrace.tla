---------------------------- MODULE SessionTrace ----------------------------
(* Validation of recorded sessions of the real backend against SessionAbs.   *)
(* One trace per line: {id, items:[{kind, cls}], ev:[{e, i, c, cls, code}]}.     *)
EXTENDS SessionAbs, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
tvars == <<avars, t, k>>

TInit == /\ t \in DOMAIN Traces
         /\ k = 1
         /\ AInit({Traces[t].items})

Ev == Traces[t].ev[k]
IsEvent(e) == k <= Len(Traces[t].ev) /\ Ev.e = e /\ k' = k + 1 /\ t' = t

TSend == IsEvent("send") /\ Ev.i = sent + 1 /\ Send
(* The backend may be gone already (broken frame), the rest is not delivered. *)
TLost == IsEvent("lost") /\ BrokenSeen /\ UNCHANGED avars
TClose == IsEvent("close") /\ Close
TStart == IsEvent("start") /\ Start(Ev.i)
TRelease == IsEvent("release") /\ Release(Ev.i)
(* C01: event is emitted only for a whole well-formed frame,                 *)
(* C02: it carries id of the request i and its own result.                   *)
(* c lists the requests with the same id: one unless ids are repeated.       *)
TFrame == IsEvent("frame") /\ \E j \in DOMAIN Ev.c :
              Answer(Ev.c[j]) /\ Ev.cls = items[Ev.c[j]].cls
(* After a sufficiently long pause everything that may be answered is answered. *)
TQuiet == IsEvent("quiet") /\ MustAnswer = {} /\ UNCHANGED avars
TExit == IsEvent("exit") /\ Ev.code = 0 /\ End
(* C04: input is still open but the process has not been stopped *)
TAlive == IsEvent("alive") /\ ~ended /\ UNCHANGED avars

TNext == TSend \/ TLost \/ TClose \/ TStart \/ TRelease \/ TFrame \/ TQuiet \/ TExit \/ TAlive
TSpec == TInit /\ [][TNext]_tvars

TInv == OnlyServedAnswered /\ EndedComplete /\ NeverAfterBroken

Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (k = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, k>>])))
=============================================================================

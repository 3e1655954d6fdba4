----------------------------- MODULE EmacsTrace -----------------------------
(* Recorded runs of the Emacs client and responses of the real backend.      *)
(* Arguments are hexadecimal strings. Requests that wait for the same step   *)
(* are interchangeable until the step with their own arguments, so they are  *)
(* counted.                                                                  *)
(*  cfg: user, fixed, files, eval, nowait, start (client can be started),    *)
(*       reqs: <<[id, op, fmt, err, url, path, line, pos, nul]>>             *)
(*  ev:  [e, i, argv, kind, ok, out, stdin]                                  *)
(* Weak = TRUE: only arguments and standard input are judged (C15).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Weak
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, n, owner, res
vars == <<t, k, n, owner, res>>
C == Traces[t].cfg
ORGP == "6f72672d70726f746f636f6c3a"
Prefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Digits(_)
Digits(s) == IF s = "" THEN "" ELSE "3" \o SubSeq(s, 1, 1) \o Digits(SubSeq(s, 2, Len(s)))
SeqSet(s) == {s[x] : x \in DOMAIN s}

R(i) == C.reqs[i]
Plan(i) == LET r == R(i) IN
    IF r.op = "visit" THEN (IF r.path \in SeqSet(C.files) THEN "visit" ELSE "refuse")
    ELSE IF ~r.fmt THEN "refuse" ELSE IF r.err THEN "preview"
    ELSE IF Prefix(r.url, ORGP) THEN "capture" ELSE "refuse"
Own(i) == LET r == R(i) IN
    IF r.op = "capture" THEN <<r.url>>
    ELSE <<C.nowait>> \o (IF r.pos THEN <<"2b" \o Digits(r.line)>> ELSE <<>>) \o <<r.path>>

Keys == {"c1", "c1r", "c2", "c2r", "c3", "cf", "v1", "v1r", "v2", "vf"}
TInit == /\ t \in DOMAIN Traces /\ k = 1
         /\ n = [x \in Keys |-> 0]
         /\ owner = [x \in {} |-> ""]
         /\ res = [i \in {} |-> ""]
Ev == Traces[t].ev[k]
Is(e) == k <= Len(Traces[t].ev) /\ Ev.e = e /\ k' = k + 1 /\ t' = t
Move(a, b) == n[a] > 0 /\ n' = [n EXCEPT ![a] = @ - 1, ![b] = @ + 1]

Req == /\ Is("req")
       /\ LET p == Plan(Ev.i) IN
          /\ res' = (Ev.i :> (IF p \in {"capture", "visit"} THEN "wait" ELSE p)) @@ res
          /\ n' = IF p = "capture" THEN [n EXCEPT !.c1 = @ + 1] ELSE IF p = "visit" THEN [n EXCEPT !.v1 = @ + 1] ELSE n
       /\ UNCHANGED owner
Common == C.user \o C.fixed
OwnArgs == SubSeq(Ev.argv, Len(Common) + 1, Len(Ev.argv))
Composed == Len(Ev.argv) > Len(Common) /\ SubSeq(Ev.argv, 1, Len(Common)) = Common /\ ~Ev.stdin
Lisp(kd) == Len(OwnArgs) = 2 /\ OwnArgs[1] = C.eval /\ Ev.kind = kd
OwnRun(i, w) == /\ res[i] = "wait" /\ ~R(i).nul /\ Plan(i) = w /\ OwnArgs = Own(i)
                /\ res' = [res EXCEPT ![i] = "run"]
                /\ owner' = (Ev.i :> ToString(i)) @@ owner
Tag(x) == owner' = (Ev.i :> x) @@ owner /\ UNCHANGED res
Run == /\ Is("run") /\ Composed /\ C.start
       /\ \/ Lisp("check") /\ Move("c1", "c1r") /\ Tag("c1r")
          \/ Lisp("ensure") /\ Move("c2", "c2r") /\ Tag("c2r")
          \/ Lisp("ensure") /\ Move("v1", "v1r") /\ Tag("v1r")
          \/ \E i \in DOMAIN res : OwnRun(i, "capture") /\ n.c3 > 0 /\ n' = [n EXCEPT !.c3 = @ - 1]
          \/ \E i \in DOMAIN res : OwnRun(i, "visit") /\ n.v2 > 0 /\ n' = [n EXCEPT !.v2 = @ - 1]
After(x, ok) == CASE x = "c1r" -> (IF ok THEN "c2" ELSE "cf") [] x = "c2r" -> (IF ok THEN "c3" ELSE "cf")
                  [] x = "v1r" -> (IF ok THEN "v2" ELSE "vf")
End == /\ Is("end") /\ Ev.i \in DOMAIN owner
       /\ LET x == owner[Ev.i] IN
          IF x \in Keys THEN Move(x, After(x, Ev.ok)) /\ UNCHANGED res
          ELSE /\ res' = [i \in DOMAIN res |-> IF ToString(i) = x THEN (IF Ev.ok THEN "good" ELSE "bad") ELSE res[i]]
               /\ UNCHANGED n
       /\ owner' = [y \in DOMAIN owner \ {Ev.i} |-> owner[y]]
Success(i) == IF R(i).op = "visit" THEN "true" ELSE "success"
Dec(x) == n[x] > 0 /\ n' = [n EXCEPT ![x] = @ - 1]
Resp == /\ Is("resp") /\ Ev.i \in DOMAIN res
        /\ LET s == res[Ev.i]
               cap == R(Ev.i).op = "capture" IN
           \/ s = "refuse" /\ Ev.out = "error" /\ UNCHANGED n
           \/ s = "preview" /\ Ev.out = "preview" /\ UNCHANGED n
           \/ s = "good" /\ Ev.out = Success(Ev.i) /\ UNCHANGED n
           \/ s = "bad" /\ Ev.out = "error" /\ UNCHANGED n
           \/ s = "wait" /\ Ev.out = "error" /\ Dec(IF cap THEN "cf" ELSE "vf")
           \* arguments that can not be passed to a process
           \/ s = "wait" /\ R(Ev.i).nul /\ Ev.out = "error" /\ Dec(IF cap THEN "c3" ELSE "v2")
           \* the client can not be started
           \/ s = "wait" /\ ~C.start /\ Ev.out = "error" /\ Dec(IF cap THEN "c1" ELSE "v1")
        /\ res' = [res EXCEPT ![Ev.i] = "done"]
        /\ UNCHANGED owner
Eof == /\ Is("eof") /\ \A x \in Keys : n[x] = 0
       /\ \A i \in DOMAIN res : res[i] = "done"
       /\ UNCHANGED <<n, owner, res>>

(* ------------------------------- arguments only --------------------------- *)
WReq == Is("req") /\ res' = (Ev.i :> "wait") @@ res /\ UNCHANGED <<n, owner>>
WRun == /\ Is("run") /\ Composed
        /\ \/ /\ Lisp("check") /\ n' = [n EXCEPT !.c1 = @ + 1] /\ UNCHANGED res
              /\ n.c1 < Cardinality({i \in DOMAIN res : R(i).op = "capture"})
           \/ /\ Lisp("ensure") /\ n' = [n EXCEPT !.c2 = @ + 1] /\ UNCHANGED res
              /\ n.c2 < Cardinality(DOMAIN res)
           \/ /\ \E i \in DOMAIN res : res[i] = "wait" /\ OwnArgs = Own(i) /\ res' = [res EXCEPT ![i] = "run"]
              /\ UNCHANGED n
        /\ UNCHANGED owner
WSkip == (Is("end") \/ Is("resp")) /\ UNCHANGED <<n, owner, res>>
(* Requests are not consumed by the client: every one is answered. *)
WEof == Is("eof") /\ UNCHANGED <<n, owner, res>> /\ Ev.i = 0

TNext == IF Weak THEN WReq \/ WRun \/ WSkip \/ WEof ELSE Req \/ Run \/ End \/ Resp \/ Eof
Verbose == "TRACE_VERBOSE" \in DOMAIN IOEnv
Progress == /\ (k = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([acc |-> Traces[t].id])))
            /\ (Verbose => PrintT("@@" \o ToJson([at |-> <<Traces[t].id, k>>])))
=============================================================================

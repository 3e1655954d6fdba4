---------------------------- MODULE FramingJudge ----------------------------
(* Judges recorded runs of the frame codecs (C03, C04). A case describes the *)
(* stream: lengths declared by headers and what the bodies are, the number   *)
(* of bytes delivered, whether the input was left open; and what came out.   *)
(* The way the stream was cut into pieces is deliberately not an argument.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i
BInit == i = 0

RECURSIVE Start(_, _)
Start(fs, k) == IF k = 1 THEN 0 ELSE Start(fs, k - 1) + 4 + fs[k - 1].len

Whole(c, k) == Start(c.frames, k) + 4 + c.frames[k].len <= c.total
HeadSeen(c, k) == Start(c.frames, k) + 4 <= c.total
Oversize(c, k) == c.frames[k].len > c.max
Fine(c, k) == ~Oversize(c, k) /\ Whole(c, k) /\ c.frames[k].body = "req"
(* Only white space after the value is missing: answering it is harmless.   *)
Almost(c, k) == /\ ~Oversize(c, k) /\ ~Whole(c, k) /\ c.frames[k].body = "req"
                /\ Start(c.frames, k) + 4 + c.frames[k].need <= c.total
Served(c) == {k \in DOMAIN c.frames : \A j \in 1..k : Fine(c, j)}

(* A frame which ends the session before the end of input. Only the first    *)
(* frame that is not fine matters. An oversize one is refused by its header. *)
Refused(c) == \E k \in DOMAIN c.frames :
    /\ k = Cardinality(Served(c)) + 1
    /\ IF Oversize(c, k) THEN HeadSeen(c, k)
       ELSE Whole(c, k) /\ c.frames[k].body = "bad"

Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
MayServe(c) == {Served(c)} \cup
    {Served(c) \cup {k} : k \in {j \in DOMAIN c.frames : j = Cardinality(Served(c)) + 1 /\ Almost(c, j)}}
Expected(c, S) == [k \in S |-> [id |-> c.frames[k].id, res |-> c.frames[k].res]]
Responses(c) ==
    /\ ~c.garbage
    /\ \E S \in MayServe(c) :
        /\ Len(c.out) = Cardinality(S)
        /\ \A k \in S : Count(c.out, Expected(c, S)[k]) =
               Cardinality({j \in S : Expected(c, S)[j] = Expected(c, S)[k]})
Ending(c) == c.ended <=> (Refused(c) \/ ~c.open)
(* Nothing of the body is needed to refuse a frame; it is not required       *)
(* that bytes are left unread.                                               *)
Client(c) == \A k \in DOMAIN c.calls :
    c.calls[k].res = IF k \in Served(c) THEN c.frames[k].res ELSE "error"

Verdict(c) == IF c.mode = "client"
              THEN IF Client(c) THEN "" ELSE "calls"
              ELSE IF ~Responses(c) THEN "responses"
              ELSE IF ~Ending(c) THEN "ending" ELSE ""
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN
            v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v, served |-> Served(Cases[i'])]]))
=============================================================================

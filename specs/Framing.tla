------------------------------- MODULE Framing -------------------------------
(* The receiving side on the level of single bytes (C03, C04): a source that  *)
(* delivers the stream in arbitrary pieces, the length limited reader and a   *)
(* decoder with a buffer of its own. A frame is Hdr bytes of length and a     *)
(* body of pre white space bytes, a value and post white space bytes.         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Hdr, MaxVal, MaxWs, MaxFrames, Buf, Mutant

Body == [pre : 0..MaxWs, val : 1..MaxVal, post : 0..MaxWs]
FrameSeqs == UNION {[1..n -> Body] : n \in 1..MaxFrames}

Size(b) == b.pre + b.val + b.post
RECURSIVE Start(_, _)
Start(fs, i) == IF i = 1 THEN 0 ELSE Start(fs, i - 1) + Hdr + Size(fs[i - 1])
Total(fs) == Start(fs, Len(fs) + 1)

VARIABLES frames,  \* the stream
          avail,   \* bytes written by the peer so far
          pos,     \* bytes consumed from the source
          n,       \* limit of the reader (bytes of the frame not read yet)
          phase,   \* "head", "body", "dead"
          cur,     \* number of the current frame
          hgot,    \* header bytes got
          dec,     \* absolute positions of bytes in the buffer of decoder
          served
vars == <<frames, avail, pos, n, phase, cur, hgot, dec, served>>

Init == /\ frames \in FrameSeqs
        /\ avail = 0 /\ pos = 0 /\ n = 0 /\ phase = "head" /\ cur = 1 /\ hgot = 0
        /\ dec = <<>> /\ served = <<>>

Arrive == /\ avail < Total(frames)
          /\ \E a \in (avail + 1)..Total(frames) : avail' = a
          /\ UNCHANGED <<frames, pos, n, phase, cur, hgot, dec, served>>

(* White space after the value that has not got into the decoder. *)
Discard == /\ phase = "head" /\ hgot = 0 /\ n > 0
           /\ IF Mutant = "nodiscard"
              THEN phase' = "dead" /\ UNCHANGED <<pos, n>>
              ELSE /\ pos < avail
                   /\ \E k \in 1..n : k <= avail - pos /\ pos' = pos + k /\ n' = n - k
                   /\ phase' = phase
           /\ UNCHANGED <<frames, avail, cur, hgot, dec, served>>

ReadHead == /\ phase = "head" /\ n = 0 /\ cur <= Len(frames)
        /\ pos < avail
        /\ \E k \in 1..(Hdr - hgot) :
             /\ k <= avail - pos
             /\ pos' = pos + k
             /\ IF hgot + k = Hdr
                THEN hgot' = 0 /\ phase' = "body" /\ n' = Size(frames[cur])
                ELSE hgot' = hgot + k /\ UNCHANGED <<phase, n>>
        /\ UNCHANGED <<frames, avail, cur, dec, served>>

(* Absolute position of the last byte of the current value. *)
ValueEnd == Start(frames, cur) + Hdr + frames[cur].pre + frames[cur].val
Complete == dec # <<>> /\ dec[Len(dec)] >= ValueEnd
Limit == IF Mutant = "nolimit" THEN Buf ELSE n

(* Decoder reads until its buffer holds a complete value. *)
Fill == /\ phase = "body" /\ ~Complete /\ pos < avail
        /\ \E k \in 1..Buf :
             /\ k <= Limit /\ k <= avail - pos
             /\ pos' = pos + k
             /\ n' = IF k <= n THEN n - k ELSE 0
             /\ dec' = dec \o [j \in 1..k |-> pos + j]
        /\ UNCHANGED <<frames, avail, phase, cur, hgot, served>>

Decode == /\ phase = "body" /\ Complete
          /\ dec' = SelectSeq(dec, LAMBDA x : x > ValueEnd)
          /\ served' = Append(served, cur)
          /\ cur' = cur + 1
          /\ phase' = "head"
          /\ UNCHANGED <<frames, avail, pos, n, hgot>>

Next == Arrive \/ Discard \/ ReadHead \/ Fill \/ Decode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The decoder never gets a byte of another frame than the current one,      *)
(* except white space left from frames already served.                       *)
OwnBytes == \A j \in DOMAIN dec :
    dec[j] <= Start(frames, IF phase = "head" THEN cur ELSE cur + 1)
InOrder == served = [j \in 1..Len(served) |-> j]
(* After the last byte everything is served, however the stream was cut. *)
AllServed == <>(Len(served) = Len(frames))
=============================================================================

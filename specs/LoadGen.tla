------------------------------- MODULE LoadGen -------------------------------
(* Configurations: what is wrong with each of the note files.                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Statuses, MaxFiles
VARIABLE c
GInit == c = <<>> /\ PrintT("@@" \o ToJson([files |-> c]))
GNext == /\ Len(c) < MaxFiles
         /\ \E s \in Statuses : c' = Append(c, s)
         /\ PrintT("@@" \o ToJson([files |-> c']))
=============================================================================

----------------------------- MODULE OutlineGen -----------------------------
(* Enumerates all small outlines for replay: level 0 is a line with a link,  *)
(* bodies and headings; one printed line per document.                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS GLevels, GMax
VARIABLE d
GInit == d \in UNION {[1..n -> {0} \cup GLevels] : n \in 1..GMax}
         /\ (\E k \in DOMAIN d : d[k] = 0)
         /\ PrintT("@@" \o ToJson([d |-> d]))
GNext == FALSE /\ UNCHANGED d
=============================================================================

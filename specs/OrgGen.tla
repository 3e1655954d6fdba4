------------------------------- MODULE OrgGen -------------------------------
(* Prints the lines of OrgDesign for replay. *)
EXTENDS OrgDesign, Json
GNext == DNext /\ PrintT("@@" \o ToJson([l |-> line']))
=============================================================================

------------------------------- MODULE ApiGen -------------------------------
(* Enumerates all requests of Api for replay on the real program. *)
EXTENDS Api, TLC, Json
GInit == Init /\ PrintT("@@" \o ToJson([names |-> Names, published |-> {<<n, OpOf(n)>> : n \in PublishedNames}, pks |-> ParamKinds]))
GNext == FALSE /\ UNCHANGED vars
=============================================================================

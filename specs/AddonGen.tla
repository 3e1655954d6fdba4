------------------------------ MODULE AddonGen ------------------------------
(* Histories of the example add-on client: random behaviours.                *)
EXTENDS AddonClient, Json
VARIABLE plan
GInit == Init /\ plan = <<>>
GNext == \E a \in {"send", "send", "reply", "junk", "error", "gone"} : \E e \in {e \in Events : e.a = a} : Do(e) /\ plan' = Append(plan, e)
Emit == (Len(plan) = 14 \/ (Len(plan) > 4 /\ \A c \in Calls : st.res[c][1] \notin {"none", "out"}))
          => PrintT("@@" \o ToJson([plan |-> plan]))
=============================================================================

--------------------------- MODULE LinkSetDesign ----------------------------
(* All short lines with several pairs of queries; all prefix lists of small  *)
(* alphabets. The service: takes a query, answers or refuses.                *)
EXTENDS OrgDesign
LS == INSTANCE LinkSet
CONSTANT MaxPref
VARIABLES query, answer
vars == <<line, num, query, answer>>
HX == HTTP \o <<COLON, 120>>
Chars == {104, 46, 58, 45, 10, 49}
Queries == {<<HTTP>>, <<NEWS, HTTP>>, <<HX>>, <<NEWS \o <<COLON>>, HX>>, <<>>, <<HTTP, <<46>>>>,
            [k \in 1..16 |-> HX], [k \in 1..17 |-> HX], <<<<46, 42, 58>>>>, <<<<10>> \o HTTP>>}
NoAns == [t |-> "none"]
File == [kind |-> "org", lines |-> <<line>>]
Serve(q, enabled) ==
    LET p == LS!Permit(enabled, 1, q) IN
    IF p = "error" THEN [t |-> "error", urls |-> {}]
    ELSE [t |-> "ok", urls |-> (IF Mutant = "leak" THEN Found(line, {HTTP, NEWS}, "org") ELSE LS!Must(<<File>>, q))]
LInit == DInit /\ query = <<>> /\ answer = NoAns
LNext == \/ answer = NoAns /\ DNext /\ UNCHANGED <<query, answer>>
         \/ answer = NoAns /\ \E q \in Queries, on \in BOOLEAN : query' = q /\ answer' = Serve(q, on) /\ UNCHANGED <<line, num>>
(* No query obtains text that is not a link of the requested scheme. *)
NoLeak == answer.t = "ok" =>
    /\ Len(query) \in 1..16
    /\ \A u \in answer.urls : /\ \E k \in DOMAIN query : HasAt(u, 1, WithColon(query[k]))
                              /\ u \in Found(line, {SchemeOf(query[k]) : k \in DOMAIN query}, "org")
NoData == answer.t # "ok" => answer.t = "none" \/ answer.urls = {}
(* Queries compose: prefixes only add links. *)
P1 == {HTTP}
P2 == {NEWS \o <<COLON, 120>>, HX}
Compose == \A kind \in {"org", "txt"} :
    /\ MustSet(line, P1, kind) \cup MustSet(line, P2, kind) \subseteq MaySet(line, P1 \cup P2, kind)
    /\ MustSet(line, P1 \cup P2, kind) \subseteq MaySet(line, P1, kind) \cup MaySet(line, P2, kind)
=============================================================================

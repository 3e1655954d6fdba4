------------------------------ MODULE OrgSyntax -----------------------------
(* Links on a line of an Org file (C25, C11). A line is a sequence of code   *)
(* points. The scanner goes from left to right and tries at every position a *)
(* bracket link, an angle link and a plain link; a found link is passed over *)
(* as a whole.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LB == 91  RB == 93  BSL == 92  LP == 40  RP == 41  LT == 60  GT == 62  COLON == 58

WordCh(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Punct(c) == c \in 33..47 \/ c \in 58..64 \/ c \in 91..96 \/ c \in 123..126
Blank(c) == c \in {9, 10, 32}
(* Characters allowed in a plain link besides balanced parentheses. *)
PlainCh(c) == c \notin {LB, RB, 32, 9, 10, LP, RP, LT, GT}
HasAt(s, p, w) == p + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[p + k - 1] = w[k]
Cut(s, a, b) == SubSeq(s, a, b - 1)
NONE == [e |-> 0, u |-> <<>>, d |-> <<>>, k |-> "none"]

(* ------------------------------ bracket links ----------------------------- *)
RECURSIVE DescrEnd(_, _)
(* First "]]" at position q or later, 0 if there is none. *)
DescrEnd(s, q) == IF q + 1 > Len(s) THEN 0
                  ELSE IF s[q] = RB /\ s[q + 1] = RB THEN q ELSE DescrEnd(s, q + 1)
(* The target is s[a..q-1], s[q] = "]". *)
BracketClose(s, a, q) ==
    IF q < Len(s) /\ s[q + 1] = RB THEN [e |-> q + 2, u |-> Cut(s, a, q), d |-> <<>>, k |-> "bracket"]
    ELSE IF q < Len(s) /\ s[q + 1] = LB /\ DescrEnd(s, q + 3) # 0
         THEN LET e == DescrEnd(s, q + 3) IN
              [e |-> e + 2, u |-> Cut(s, a, q), d |-> Cut(s, q + 2, e), k |-> "bracket"]
         ELSE NONE
RECURSIVE Target(_, _, _)
Target(s, a, q) ==
    IF q > Len(s) THEN NONE
    ELSE IF s[q] \notin {LB, RB} THEN Target(s, a, q + 1)
    ELSE LET m == IF s[q] = RB /\ q > a THEN BracketClose(s, a, q) ELSE NONE IN
         IF m.e # 0 THEN m
         \* a bracket is a part of the target only if it is escaped
         ELSE IF q > a /\ s[q - 1] = BSL THEN Target(s, a, q + 1) ELSE NONE
Bracket(s, p) == IF HasAt(s, p, <<LB, LB>>) THEN Target(s, p + 2, p + 2) ELSE NONE

(* ------------------------------- angle links ------------------------------ *)
RECURSIVE FindCh(_, _, _)
FindCh(s, q, c) == IF q > Len(s) THEN 0 ELSE IF s[q] = c THEN q ELSE FindCh(s, q + 1, c)
Angle(s, p, schemes) ==
    IF s[p] # LT THEN NONE
    ELSE LET sch == {w \in schemes : HasAt(s, p + 1, Append(w, COLON))}
             e == FindCh(s, p, GT) IN
         IF sch = {} \/ e = 0 THEN NONE
         ELSE LET fit == {w \in sch : p + Len(w) + 1 < e} IN
              IF fit = {} THEN NONE ELSE [e |-> e + 1, u |-> Cut(s, p + 1, e), d |-> <<>>, k |-> "angle"]

(* ------------------------------- plain links ------------------------------ *)
RECURSIVE GroupEnd(_, _, _)
(* Position after the parenthesis that closes the group whose inside starts  *)
(* at q, 0 if it is not balanced; groups inside it may be d levels deep.     *)
GroupEnd(s, q, d) ==
    IF q > Len(s) THEN 0
    ELSE IF s[q] = RP THEN q + 1
    ELSE IF PlainCh(s[q]) THEN GroupEnd(s, q + 1, d)
    ELSE IF s[q] = LP /\ d > 0
         THEN LET e == GroupEnd(s, q + 1, d - 1) IN IF e = 0 THEN 0 ELSE GroupEnd(s, e, d)
         ELSE 0
RECURSIVE Units(_, _)
(* Ends of the maximal sequence of characters and groups starting at q, with *)
(* a flag if a link may end there.                                           *)
Units(s, q) ==
    IF q > Len(s) THEN <<>>
    ELSE IF PlainCh(s[q]) THEN <<[e |-> q + 1, ok |-> ~Punct(s[q]) \/ s[q] = 47]>> \o Units(s, q + 1)
    ELSE IF s[q] = LP
         THEN LET e == GroupEnd(s, q + 1, 1) IN IF e = 0 THEN <<>> ELSE <<[e |-> e, ok |-> TRUE]>> \o Units(s, e)
         ELSE <<>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
PlainAfter(s, p, w) ==
    LET u == Units(s, p + Len(w) + 1)
        ends == {n \in 2..Len(u) : u[n].ok} IN
    IF ends = {} THEN NONE
    ELSE LET e == u[MaxOf(ends)].e IN [e |-> e, u |-> Cut(s, p, e), d |-> <<>>, k |-> "plain"]
Plain(s, p, schemes) ==
    IF p > 1 /\ WordCh(s[p - 1]) THEN NONE
    ELSE LET sch == {w \in schemes : HasAt(s, p, Append(w, COLON))} IN
         IF sch = {} THEN NONE
         ELSE PlainAfter(s, p, CHOOSE w \in sch : \A v \in sch : Len(v) >= Len(w))

(* --------------------------------- scanner -------------------------------- *)
LinkAt(s, p, schemes, kinds) ==
    LET b == IF "bracket" \in kinds THEN Bracket(s, p) ELSE NONE
        a == IF b.e = 0 /\ "angle" \in kinds THEN Angle(s, p, schemes) ELSE NONE
    IN IF b.e # 0 THEN b ELSE IF a.e # 0 THEN a ELSE Plain(s, p, schemes)
RECURSIVE Scan(_, _, _, _)
Scan(s, p, schemes, kinds) ==
    IF p > Len(s) THEN <<>>
    ELSE LET m == LinkAt(s, p, schemes, kinds) IN
         IF m.e = 0 THEN Scan(s, p + 1, schemes, kinds)
         ELSE <<[b |-> p] @@ m>> \o Scan(s, m.e, schemes, kinds)
ALL == {"bracket", "angle", "plain"}
OfScheme(u, schemes) == \E w \in schemes : HasAt(u, 1, Append(w, COLON))
Links(s, schemes) ==
    SelectSeq(Scan(s, 1, schemes, ALL), LAMBDA m : m.k # "bracket" \/ OfScheme(m.u, schemes))
PlainLinks(s, schemes) == Scan(s, 1, schemes, {"plain"})

(* --------------------------------- link set ------------------------------- *)
SchemeOf(prefix) == LET e == FindCh(prefix, 1, COLON) IN IF e = 0 THEN prefix ELSE Cut(prefix, 1, e)
WithColon(prefix) == IF FindCh(prefix, 1, COLON) = 0 THEN Append(prefix, COLON) ELSE prefix
Begins(u, prefixes) == \E w \in prefixes : HasAt(u, 1, WithColon(w))
SeqSet(q) == {q[k] : k \in DOMAIN q}
Found(s, schemes, kind) ==
    {m.u : m \in SeqSet(IF kind = "org" THEN Scan(s, 1, schemes, ALL) ELSE PlainLinks(s, schemes))}
(* What counts as a link depends on the schemes looked for when links are    *)
(* nested in each other: certain are links found in either way.              *)
MaySet(s, prefixes, kind) ==
    LET schemes == {SchemeOf(w) : w \in prefixes} IN
    {u \in Found(s, schemes, kind) \cup UNION {Found(s, {w}, kind) : w \in schemes} : Begins(u, prefixes)}
MustSet(s, prefixes, kind) ==
    LET schemes == {SchemeOf(w) : w \in prefixes} IN
    {u \in Found(s, schemes, kind) : Begins(u, prefixes)
        /\ \E w \in schemes : HasAt(u, 1, Append(w, COLON)) /\ u \in Found(s, {w}, kind)}
=============================================================================

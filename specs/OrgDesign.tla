------------------------------ MODULE OrgDesign -----------------------------
(* All lines of up to MaxTok tokens: the scanner is sane whatever is written *)
(* on a line. The same lines are replayed on the real code (OrgGen).         *)
EXTENDS OrgSyntax, Integers
CONSTANTS MaxTok, Mutant
X == <<120>>
HTTP == <<104, 116, 116, 112>>
NEWS == <<110, 119>>
Tokens == << <<LB, LB>>, <<RB, RB>>, <<LB>>, <<RB>>, <<BSL>>, HTTP \o <<COLON>>, NEWS \o <<COLON>>,
             X, <<32>>, <<LP>>, <<RP>>, <<LT>>, <<GT>>, <<47>>, <<46>>, <<1078>> >>
VARIABLE line, num
DInit == line = <<>> /\ num = 0
DNext == /\ num < MaxTok
         /\ \E t \in DOMAIN Tokens : line' = line \o Tokens[t]
         /\ num' = num + 1
Schemes == {HTTP, NEWS}
M(ls) == IF Mutant = "overlap" THEN [k \in DOMAIN ls |-> [ls[k] EXCEPT !.e = ls[k].e + 1]] ELSE ls
(* Links are pieces of the line, one after another. *)
Disjoint == LET ls == M(Scan(line, 1, Schemes, ALL)) IN
    \A k \in DOMAIN ls :
        /\ ls[k].b < ls[k].e /\ ls[k].e <= Len(line) + 1
        /\ k > 1 => ls[k - 1].e <= ls[k].b
        /\ Len(ls[k].u) > 0
        /\ ls[k].k = "plain" => ls[k].u = Cut(line, ls[k].b, ls[k].e)
        /\ ls[k].k = "angle" => Cut(line, ls[k].b, ls[k].e) = <<LT>> \o ls[k].u \o <<GT>>
        /\ ls[k].k = "bracket" =>
              Cut(line, ls[k].b, ls[k].e) = <<LB, LB>> \o ls[k].u \o <<RB>>
                  \o (IF ls[k].d = <<>> THEN <<>> ELSE <<LB>> \o ls[k].d \o <<RB>>) \o <<RB>>
(* Every reported link is of a configured scheme; plain ones have no blanks, *)
(* brackets, and balanced parentheses only.                                  *)
Depth(u) == LET RECURSIVE F(_)
                F(n) == IF n = 0 THEN 0 ELSE F(n - 1) + (IF u[n] = LP THEN 1 ELSE IF u[n] = RP THEN -1 ELSE 0)
            IN F(Len(u))
Sound == \A m \in SeqSet(Links(line, Schemes)) :
    /\ OfScheme(m.u, Schemes)
    /\ m.k = "plain" =>
         /\ \A c \in SeqSet(m.u) : c \notin {LB, RB, 32, LT, GT}
         /\ Depth(m.u) = 0
         /\ ~Punct(m.u[Len(m.u)]) \/ m.u[Len(m.u)] \in {47, RP}
         /\ (m.b = 1 \/ ~WordCh(line[m.b - 1]))
(* Text put after a blank does not matter for links before it. *)
Stable == LET a == Links(line, Schemes)
              b == Links(line \o <<32>> \o X, Schemes) IN
          LB \notin SeqSet(line) /\ LT \notin SeqSet(line) => a = b
(* The link set is a subset of what is found, certain links included. *)
SetSane == LET ps == {HTTP, NEWS \o <<COLON>> \o X} IN
    /\ MustSet(line, ps, "org") \subseteq MaySet(line, ps, "org")
    /\ MustSet(line, ps, "txt") \subseteq MaySet(line, ps, "txt")
    /\ \A u \in MaySet(line, ps, "org") \cup MaySet(line, ps, "txt") : Begins(u, ps)
(* Written links are recognized. *)
Written == LET u == HTTP \o <<COLON, 47, 47, 120>> IN
    /\ line = <<>> => Links(u, Schemes)[1].u = u
    /\ (PlainCh(Append(line, 32)[1]) /\ LB \notin SeqSet(line) /\ RB \notin SeqSet(line) /\ BSL \notin SeqSet(line)) =>
         LET t == u \o line
             w == <<LB, LB>> \o t \o <<RB, RB>> IN
         Links(w, Schemes) = <<[b |-> 1, e |-> Len(w) + 1, u |-> t, d |-> <<>>, k |-> "bracket"]>>
    /\ GT \notin SeqSet(line) => Links(<<LT>> \o u \o line \o <<GT>>, Schemes)[1].u = u \o line
=============================================================================

------------------------------ MODULE TxtDesign -----------------------------
(* All words of up to MaxTok tokens. *)
EXTENDS TxtSyntax, Json
CONSTANTS MaxTok, Mutant
Tokens == << <<104, 58>>, <<104, 116>>, <<58>>, <<47>>, <<47, 47>>, <<46>>, <<97>>, <<99, 111>>, <<49>>, <<45>>, <<95>>,
             <<37, 50, 102>>, <<37>>, <<1078, 1079>>, <<64>>, <<40>>, <<32>>, <<10>>, <<13, 10>>, <<8230>> >>
VARIABLE txt, num
DInit == txt = <<>> /\ num = 0
DNext == /\ num < MaxTok
         /\ \E t \in DOMAIN Tokens : txt' = txt \o Tokens[t]
         /\ num' = num + 1
GNext == DNext /\ PrintT("@@" \o ToJson([l |-> txt']))
Urls == LET u == TextUrls(txt, 1, 1) IN IF Mutant = "lines" THEN [k \in DOMAIN u |-> [u[k] EXCEPT !.n = 1]] ELSE u
LineNo(p) == 1 + Cardinality({k \in 1..(p - 1) : txt[k] = 10})
Places(u) == {p \in 1..Len(txt) : p + Len(u) - 1 <= Len(txt) /\ SubSeq(txt, p, p + Len(u) - 1) = u}
(* A URL is a piece of a word of its line, in text order, and has a letter   *)
(* or a digit.                                                               *)
Sound == \A k \in DOMAIN Urls :
    /\ \A c \in {Urls[k].u[j] : j \in DOMAIN Urls[k].u} : ~Space(c) /\ c # 40
    /\ \E p \in Places(Urls[k].u) : LineNo(p) = Urls[k].n
    /\ k > 1 => Urls[k - 1].n <= Urls[k].n
    /\ \E j \in DOMAIN Urls[k].u : Urls[k].u[j] \in {46, 58}
(* Words of different lines and text around do not influence each other. *)
Split(p) == TextUrls(SubSeq(txt, 1, p), 1, 1) \o TextUrls(SubSeq(txt, p + 1, Len(txt)), 1, LineNo(p + 1))
Local == Mutant = "none" => \A p \in 1..Len(txt) : Space(txt[p]) => Urls = Split(p)
(* A written URL is found whatever follows it after a blank. *)
Written == LET u == <<104, 58, 47, 47, 97, 46, 99, 111, 47, 97>>
               r == TextUrls(u \o <<32>> \o txt, 1, 1) IN
           r # <<>> /\ r[1] = [u |-> u, class |-> "yes", n |-> 1]
=============================================================================

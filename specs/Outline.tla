------------------------------- MODULE Outline -------------------------------
(* Outline of an Org file and what it means for a link to be under a heading *)
(* (C07). A line is [lvl |-> heading level or 0, links |-> sequence].        *)
(* The machine is the one pass scanner that keeps a stack of open headings   *)
(* and creates tree nodes on demand; the definitions below are declarative.  *)
EXTENDS Naturals, Sequences, FiniteSets

Last(S) == CHOOSE x \in S : \A y \in S : y <= x

(* Line number of the heading which owns line k; 0 is the file itself.       *)
Owner(lines, k) ==
    LET hs == {j \in 1..k : lines[j].lvl > 0} IN IF hs = {} THEN 0 ELSE Last(hs)
(* The nearest preceding heading of a strictly lower level.                  *)
Parent(lines, h) ==
    LET hs == {j \in 1..(h - 1) : lines[j].lvl > 0 /\ lines[j].lvl < lines[h].lvl}
    IN IF hs = {} THEN 0 ELSE Last(hs)
RECURSIVE Up(_, _)
Up(lines, h) == IF h = 0 THEN <<>> ELSE Append(Up(lines, Parent(lines, h)), h)
(* Headings enclosing line k, the outermost first.                           *)
Chain(lines, k) == Up(lines, Owner(lines, k))

-----------------------------------------------------------------------------
CONSTANTS Levels, MaxLines, Mutant

Line == [lvl : {0} \cup Levels, link : BOOLEAN]
VARIABLES doc, pos, open, nodes, placed
vars == <<doc, pos, open, nodes, placed>>

Init == /\ doc \in UNION {[1..n -> Line] : n \in 1..MaxLines}
        /\ pos = 0
        /\ open = <<>>      \* stack of open headings (line numbers)
        /\ nodes = {}       \* headings that got into the tree
        /\ placed = <<>>    \* found links: [line, path]

(* Headings which stay open when a heading of level l starts.                *)
Keep(l) == IF Mutant = "levels"
           THEN \* takes depth of the stack for the level
                SubSeq(open, 1, IF l - 1 < Len(open) THEN l - 1 ELSE Len(open))
           ELSE SelectSeq(open, LAMBDA h : doc[h].lvl < l)
Step ==
    /\ pos < Len(doc)
    /\ pos' = pos + 1
    /\ LET ln == doc[pos + 1] IN
       /\ open' = IF ln.lvl > 0 THEN Append(Keep(ln.lvl), pos + 1) ELSE open
       /\ IF ln.link
          THEN /\ placed' = Append(placed, [line |-> pos + 1, path |-> open'])
               /\ nodes' = nodes \cup {open'[j] : j \in DOMAIN open'}
          ELSE UNCHANGED <<placed, nodes>>
    /\ UNCHANGED doc
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Under == \A j \in DOMAIN placed : placed[j].path = Chain(doc, placed[j].line)
NoEmptyHeading == \A h \in nodes : \E j \in DOMAIN placed : \E m \in DOMAIN placed[j].path : placed[j].path[m] = h
Ascending == \A j \in DOMAIN open : \A m \in 1..(j - 1) : doc[open[m]].lvl < doc[open[j]].lvl
Complete == pos = Len(doc) => Len(placed) = Cardinality({k \in DOMAIN doc : doc[k].link})
=============================================================================

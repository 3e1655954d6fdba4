------------------------------ MODULE Mentions ------------------------------
(* Meaning of a mention query (C06, C07, C08): what is equivalent to a       *)
(* queried URL, which occurrences are reported, where and with what counts.  *)
(* Cases are recorded answers of the real program:                           *)
(*   files  <<[path, lines |-> <<[lvl, text, links |-> <<[url, descr]>>]>>]>> *)
(*   q      queried URLs;  limit  effective count limit                      *)
(*   out    the answer: nodes [t, total, filtered, line, text, path, links, ch] *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0

(* A line of a long file may be given without the void lines before it: then *)
(* it carries its number.                                                    *)
No(lines, k) == IF "no" \in DOMAIN lines[k] THEN lines[k].no ELSE k
Index(lines, n) ==
    IF lines # <<>> /\ "no" \in DOMAIN lines[1]
    THEN IF \E k \in DOMAIN lines : lines[k].no = n THEN CHOOSE k \in DOMAIN lines : lines[k].no = n ELSE 0
    ELSE IF n \in DOMAIN lines THEN n ELSE 0

(* ------------------------------- equivalence ------------------------------ *)
At(s, k) == SubSeq(s, k, k)
RECURSIVE Strip(_, _, _)
(* Position before trailing characters ch of the first n ones of s. *)
Strip(s, n, ch) == IF n > 0 /\ At(s, n) = ch THEN Strip(s, n - 1, ch) ELSE n
One(s, n, ch) == IF n > 0 /\ At(s, n) = ch THEN n - 1 ELSE n
CoreLen(s) == Strip(s, One(s, Strip(s, One(s, Len(s), "#"), "&"), "?"), "/")
Prefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Other(s) == IF Prefix(s, "http:") THEN {"https:" \o SubSeq(s, 6, Len(s))}
            ELSE IF Prefix(s, "https:") THEN {"http:" \o SubSeq(s, 7, Len(s))} ELSE {}
(* url is u or u with a part of its redundant tail dropped. *)
TailDropped(url, u) == Prefix(u, url) /\ Len(url) >= CoreLen(u)
Equivalent(url, u) == TailDropped(url, u) \/ \E v \in Other(u) : TailDropped(url, v)
Matches(c, url) == \E k \in DOMAIN c.q : c.q[k] # "" /\ Equivalent(url, c.q[k])

(* --------------------------------- outline -------------------------------- *)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Owner(lines, k) ==
    LET hs == {j \in 1..k : lines[j].lvl > 0} IN IF hs = {} THEN 0 ELSE Last(hs)
Parent(lines, h) ==
    LET hs == {j \in 1..(h - 1) : lines[j].lvl > 0 /\ lines[j].lvl < lines[h].lvl}
    IN IF hs = {} THEN 0 ELSE Last(hs)
RECURSIVE Up(_, _)
Up(lines, h) == IF h = 0 THEN <<>> ELSE Append(Up(lines, Parent(lines, h)), h)
Chain(lines, k) == Up(lines, Owner(lines, k))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Sum(s) == LET RECURSIVE F(_)
              F(n) == IF n = 0 THEN 0 ELSE F(n - 1) + s[n]
          IN F(Len(s))

(* Occurrences of reported URLs in a file: [line, url, descr, own]. *)
LineOcc(c, f, k) ==
    LET ls == SelectSeq(c.files[f].lines[k].links, LAMBDA l : Matches(c, l.url))
        o == Owner(c.files[f].lines, k)
        up == Up(c.files[f].lines, o)
    IN IF ls = <<>> THEN <<>>
       ELSE LET above == {up[x] : x \in DOMAIN up} IN
            [j \in DOMAIN ls |-> [line |-> No(c.files[f].lines, k), url |-> ls[j].url, descr |-> ls[j].descr, own |-> o, up |-> above]]
FileOcc(c, f) ==
    LET ks == SelectSeq([k \in DOMAIN c.files[f].lines |-> k], LAMBDA k : c.files[f].lines[k].links # <<>>)
    IN Concat([n \in DOMAIN ks |-> LineOcc(c, f, ks[n])])
(* Shown are first occurrences within the direct text of one heading. *)
FirstOnes(s) == SelectSeq([n \in DOMAIN s |-> [n |-> n] @@ s[n]],
                    LAMBDA x : ~\E m \in 1..(x.n - 1) : s[m].own = x.own /\ s[m].url = x.url)
Plain(s) == [n \in DOMAIN s |-> [line |-> s[n].line, url |-> s[n].url, descr |-> s[n].descr]]

(* --------------------------------- answers -------------------------------- *)
(* The root is a file group unless there is exactly one file to be shown.    *)
RootFiles(c) == IF c.out.t = "File" THEN <<c.out>> ELSE c.out.ch
RECURSIVE Flat(_)
Flat(n) == IF n.t = "Body" THEN n.links ELSE Concat([k \in DOMAIN n.ch |-> Flat(n.ch[k])])
(* Files that have something, in configuration order. *)
WithOcc(c, occ) == SelectSeq([f \in DOMAIN c.files |-> f], LAMBDA f : occ[f] # <<>>)

C06(c) ==
    LET occ == [f \in DOMAIN c.files |-> FileOcc(c, f)]
        fs == WithOcc(c, occ)
        root == RootFiles(c) IN
    IF c.out.t \notin {"File", "FileGroup"} THEN "type of the root"
    ELSE IF c.out.total # Sum([f \in DOMAIN c.files |-> Len(occ[f])]) THEN "total"
    ELSE IF [k \in DOMAIN root |-> root[k].path] # [k \in DOMAIN fs |-> c.files[fs[k]].path] THEN "files"
    ELSE IF \E k \in DOMAIN root : Flat(root[k]) # Plain(FirstOnes(occ[fs[k]])) THEN "links"
    ELSE ""

(* C07: headings on the way to every link. *)
RECURSIVE Under(_, _, _, _)
(* path: line numbers of headings above the node. *)
Under(lines, n, path, root) ==
    IF n.t = "Body"
    THEN \A k \in DOMAIN n.links : Chain(lines, Index(lines, n.links[k].line)) = path
    ELSE /\ n.t = (IF root THEN "File" ELSE "Heading")
         /\ n.ch # <<>>
         /\ (root \/ /\ Index(lines, n.line) # 0
                     /\ lines[Index(lines, n.line)].lvl > 0
                     /\ n.text = lines[Index(lines, n.line)].text)
         /\ \A k \in DOMAIN n.ch :
                Under(lines, n.ch[k], IF root THEN path ELSE Append(path, Index(lines, n.line)), FALSE)
RECURSIVE Heads(_)
Heads(n) == IF n.t = "Body" THEN <<>>
            ELSE Concat([k \in DOMAIN n.ch |-> IF n.ch[k].t = "Heading" THEN <<n.ch[k].line>> \o Heads(n.ch[k]) ELSE <<>>])
RECURSIVE NonEmptyBodies(_)
NonEmptyBodies(n) == IF n.t = "Body" THEN n.links # <<>> ELSE \A k \in DOMAIN n.ch : NonEmptyBodies(n.ch[k])
C07(c) ==
    LET root == RootFiles(c)
        FileOf(p) == CHOOSE f \in DOMAIN c.files : c.files[f].path = p IN
    IF \E k \in DOMAIN root : ~\E f \in DOMAIN c.files : c.files[f].path = root[k].path THEN "unknown file"
    ELSE IF \E k \in DOMAIN root : ~NonEmptyBodies(root[k]) THEN "empty group"
    ELSE IF \E k \in DOMAIN root : ~Under(c.files[FileOf(root[k].path)].lines, root[k], <<>>, TRUE) THEN "headings"
    ELSE IF \E k \in DOMAIN root : LET h == Heads(root[k]) IN \E m \in 1..(Len(h) - 1) : h[m] >= h[m + 1] THEN "order of headings"
    ELSE IF \E f \in DOMAIN c.files : FileOcc(c, f) # <<>> /\ ~\E k \in DOMAIN root : root[k].path = c.files[f].path THEN "missing file"
    ELSE IF \E f \in DOMAIN c.files, k \in DOMAIN root :
               root[k].path = c.files[f].path /\
               LET fl == Flat(root[k])
                   oc == FileOcc(c, f) IN
               \E m \in DOMAIN oc : ~\E x \in DOMAIN fl :
                    fl[x].url = oc[m].url /\ Owner(c.files[f].lines, Index(c.files[f].lines, fl[x].line)) = oc[m].own THEN "link is lost"
    ELSE ""

(* C08: counts and the limit. *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Shown(_)
Shown(n) == IF n.t = "Body" THEN Len(n.links) ELSE Sum([k \in DOMAIN n.ch |-> Shown(n.ch[k])])
(* Number of occurrences beneath heading h (0: file) of the occurrence list. *)
Beneath(lines, occ, h) ==
    IF h = 0 THEN Len(occ)
    ELSE Cardinality({m \in DOMAIN occ : h \in occ[m].up})
InBody(occ, h) == Cardinality({m \in DOMAIN occ : occ[m].own = h})
ChildHeads(lines, occ, h) == {j \in UNION {occ[m].up : m \in DOMAIN occ} : Parent(lines, j) = h}
RECURSIVE Counts(_, _, _, _)
Counts(lines, occ, n, h) ==
    IF n.t = "Body" THEN n.total = InBody(occ, h) /\ n.filtered = Len(n.links)
    ELSE LET heads == ChildHeads(lines, occ, h)
             kept == {k \in DOMAIN n.ch : n.ch[k].t = "Heading"}
             keptLines == {n.ch[k].line : k \in kept}
             body == {k \in DOMAIN n.ch : n.ch[k].t = "Body"}
             dropped == {Beneath(lines, occ, j) : j \in heads \ keptLines}
                        \cup (IF body = {} /\ InBody(occ, h) > 0 THEN {InBody(occ, h)} ELSE {})
             shownTotals == {n.ch[k].total : k \in DOMAIN n.ch} IN
         /\ n.total = Beneath(lines, occ, h)
         /\ n.filtered = Shown(n)
         /\ keptLines \subseteq heads
         /\ Cardinality(keptLines) = Cardinality(kept) /\ Cardinality(body) <= 1
         /\ \A d \in dropped, s \in shownTotals : d <= s
         /\ \A k \in DOMAIN n.ch : Counts(lines, occ, n.ch[k], IF n.ch[k].t = "Body" THEN h ELSE n.ch[k].line)
C08(c) ==
    LET root == RootFiles(c)
        occ == [f \in DOMAIN c.files |-> FileOcc(c, f)]
        all == Sum([f \in DOMAIN c.files |-> Len(occ[f])])
        FileOf(p) == CHOOSE f \in DOMAIN c.files : c.files[f].path = p
        known == \A k \in DOMAIN root : \E f \in DOMAIN c.files : c.files[f].path = root[k].path
        keptFiles == {root[k].path : k \in DOMAIN root}
        droppedF == {Len(occ[f]) : f \in {g \in DOMAIN c.files : occ[g] # <<>> /\ c.files[g].path \notin keptFiles}}
    IN
    IF ~known THEN "unknown file"
    ELSE IF c.out.t = "FileGroup" /\ c.out.total # all THEN "total"
    ELSE IF c.out.t = "FileGroup" /\ c.out.filtered # Shown(c.out) THEN "filtered"
    ELSE IF Shown(c.out) > (IF c.limit < 0 THEN 0 ELSE c.limit) THEN "limit is exceeded"
    ELSE IF c.limit > 0 /\ all > 0 /\ Shown(c.out) = 0 THEN "nothing is shown"
    ELSE IF c.limit > 0 /\ ~NonEmptyBodies(c.out) THEN "empty group"
    ELSE IF c.limit > 0 /\ all > 0 /\ \E k \in DOMAIN root : Shown(root[k]) = 0 THEN "empty group"
    ELSE IF \E k \in DOMAIN root : ~Counts(c.files[FileOf(root[k].path)].lines, occ[FileOf(root[k].path)], root[k], 0) THEN "counts of groups"
    ELSE IF \E d \in droppedF, k \in DOMAIN root : d > root[k].total THEN "a larger file is dropped"
    ELSE IF c.limit >= all /\ \E f \in DOMAIN c.files : occ[f] # <<>> /\
            ~\E k \in DOMAIN root : root[k].path = c.files[f].path /\ Flat(root[k]) = Plain(FirstOnes(occ[f]))
         THEN "links are hidden by a sufficient limit"
    ELSE ""

(* C28: the query tool prints nothing when nothing is found. *)
All(c) == Sum([f \in DOMAIN c.files |-> Len(FileOcc(c, f))])
C28(c) ==
    LET all == All(c) IN
    IF all = 0 /\ c.tool THEN (IF c.out.t = "none" THEN "" ELSE "something is printed")
    ELSE IF c.out.t \notin {"File", "FileGroup"} THEN "type of the root"
    ELSE IF c.ref.t # "none" /\ c.out # c.ref THEN "differs from the answer of the backend"
    ELSE LET v == C08(c) IN
         IF v # "" THEN v ELSE IF all > c.limit THEN ""
         ELSE LET w == C06(c) IN IF w # "" THEN w ELSE C07(c)

Verdict(c) == CASE c.prop = "C28" -> C28(c) [] c.prop = "C06" -> C06(c) [] c.prop = "C07" -> C07(c) [] c.prop = "C08" -> C08(c)
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

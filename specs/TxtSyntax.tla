------------------------------ MODULE TxtSyntax -----------------------------
(* URLs in plain text (C26). A text is a sequence of code points; lines are  *)
(* split into words and every word is scanned from left to right.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122
(* Letters; the alphabet of generated texts is a subset of this model. *)
Letter(c) == \/ Alpha(c) \/ c \in {170, 181, 186} \/ (c \in 192..591 /\ c \notin {215, 247})
             \/ c \in 1024..1153 \/ c \in 1162..1327 \/ c \in 19968..40959
Space(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202
Alnum(c) == Letter(c) \/ Digit(c)
NameCh(c) == Alnum(c) \/ c \in {45, 95}
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
PathCh(c) == Alnum(c) \/ c \in {46, 64, 44, 126, 95, 45}
DOT == 46  SLASH == 47  COLON == 58  PERCENT == 37
Cut(s, a, b) == SubSeq(s, a, b - 1)
Is(s, p, c) == p <= Len(s) /\ s[p] = c

RECURSIVE Run(_, _, _)
(* End of the run of letters ("a": ASCII, "l": any), name characters ("n").  *)
Run(s, p, kind) ==
    IF p <= Len(s) /\ (CASE kind = "a" -> Alpha(s[p]) [] kind = "l" -> Letter(s[p]) [] OTHER -> NameCh(s[p]))
    THEN Run(s, p + 1, kind) ELSE p
(* Position after "scheme:" or "scheme://", p if there is no scheme. *)
SchemeEnd(s, p) ==
    LET e == Run(s, p, "a") IN
    IF e > p /\ Is(s, e, COLON) THEN IF Is(s, e + 1, SLASH) /\ Is(s, e + 2, SLASH) THEN e + 3 ELSE e + 1
    ELSE p
(* Position after a component of a host name and its dot, 0 if none. *)
CompEnd(s, p) ==
    LET e == Run(s, p, "n") IN
    IF e > p /\ e - p <= 64 /\ Alnum(s[p]) /\ Alnum(s[e - 1]) /\ Is(s, e, DOT) THEN e + 1 ELSE 0
TldEnd(s, p) ==
    LET e == Run(s, p, "l") IN
    IF e - p < 2 THEN 0
    ELSE LET q == IF e - p > 64 THEN p + 64 ELSE e IN IF Is(s, q, DOT) THEN q + 1 ELSE q
RECURSIVE Host(_, _, _)
(* [e: position after the host name or 0, n: number of components before the *)
(* last one]: as many components as possible.                                *)
Host(s, p, n) ==
    LET c == IF n < 16 THEN CompEnd(s, p) ELSE 0
        deeper == IF c = 0 THEN [e |-> 0, n |-> 0] ELSE Host(s, c, n + 1) IN
    IF deeper.e # 0 THEN deeper ELSE [e |-> TldEnd(s, p), n |-> n]
RECURSIVE PathRun(_, _)
PathRun(s, p) ==
    IF p > Len(s) THEN p
    ELSE IF s[p] = SLASH \/ PathCh(s[p]) THEN PathRun(s, p + 1)
    ELSE IF s[p] = PERCENT /\ p + 2 <= Len(s) /\ Hex(s[p + 1]) /\ Hex(s[p + 2]) THEN PathRun(s, p + 3) ELSE p
PathEnd(s, p) == IF Is(s, p, SLASH) THEN PathRun(s, p) ELSE p

(* What starts at p: [e: end, class]. *)
At(s, p) ==
    LET a == SchemeEnd(s, p)
        h == Host(s, a, 0)
        b == IF h.e = 0 THEN a ELSE h.e
        e == PathEnd(s, b)
        scheme == a > p
        host == h.e # 0
        path == e > b IN
    [e |-> e, class |-> IF scheme /\ host THEN "yes"
                        ELSE IF scheme /\ path THEN "may"      \* file:///path
                        ELSE IF host /\ h.n > 0 THEN "yes"     \* dotted host name
                        ELSE "no"]
RECURSIVE WordUrls(_, _)
WordUrls(s, p) ==
    IF p > Len(s) THEN <<>>
    ELSE LET m == At(s, p) IN
         IF m.e = p THEN WordUrls(s, p + 1)
         ELSE (IF m.class = "no" THEN <<>> ELSE <<[u |-> Cut(s, p, m.e), class |-> m.class]>>) \o WordUrls(s, m.e)
RECURSIVE NextCh(_, _, _)
(* First position from p on of a space (kind "s"), a word ("w"), line feed ("n"). *)
NextCh(s, p, kind) ==
    IF p > Len(s) THEN p
    ELSE IF (CASE kind = "s" -> Space(s[p]) [] kind = "w" -> ~Space(s[p]) [] OTHER -> s[p] = 10) THEN p
    ELSE NextCh(s, p + 1, kind)
RECURSIVE LineUrls(_, _)
LineUrls(s, p) ==
    LET a == NextCh(s, p, "w") IN
    IF a > Len(s) THEN <<>>
    ELSE LET e == NextCh(s, a, "s") IN WordUrls(Cut(s, a, e), 1) \o LineUrls(s, e)
RECURSIVE TextUrls(_, _, _)
(* Sequence of [u, class, n: line number]. *)
TextUrls(s, p, num) ==
    IF p > Len(s) THEN <<>>
    ELSE LET e == NextCh(s, p, "n")
             ls == LineUrls(Cut(s, p, e), 1) IN
         [k \in DOMAIN ls |-> [n |-> num] @@ ls[k]] \o TextUrls(s, e + 1, num + 1)
=============================================================================

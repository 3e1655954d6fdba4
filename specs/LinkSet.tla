------------------------------- MODULE LinkSet ------------------------------
(* Link set queries (C11, C12): which ones are permitted and their answers.  *)
(* A world: enabled, files (sequence of [kind, lines]); a query: sequence of *)
(* prefixes.                                                                 *)
EXTENDS OrgSyntax, Integers
MaxPrefixes == 16

Alpha(c) == c \in 65..90 \/ c \in 97..122
AlNum(c) == Alpha(c) \/ c \in 48..57
(* "yes": a scheme name, "no", or "may" for spellings of schemes that RFC    *)
(* 3986 allows but nobody uses.                                              *)
SchemeName(s) ==
    IF s = <<>> \/ ~Alpha(s[1]) THEN "no"
    ELSE IF \A k \in DOMAIN s : AlNum(s[k]) \/ (s[k] \in {43, 45} /\ k < Len(s) /\ AlNum(s[k + 1])) THEN "yes"
    ELSE IF \A k \in DOMAIN s : AlNum(s[k]) \/ s[k] \in {43, 45, 46} THEN "may" ELSE "no"
PrefixOk(s) == IF \E k \in DOMAIN s : s[k] = 10 THEN "no" ELSE SchemeName(SchemeOf(s))

(* "error", "answer" or "any". *)
Permit(enabled, nfiles, q) ==
    IF ~enabled \/ Len(q) > MaxPrefixes THEN "error"
    ELSE IF nfiles = 0 THEN "any"
    ELSE IF Len(q) = 0 \/ \E k \in DOMAIN q : PrefixOk(q[k]) = "no" THEN "error"
    ELSE IF \E k \in DOMAIN q : PrefixOk(q[k]) = "may" THEN "any"
    ELSE "answer"

FileLines(f) == SeqSet(f.lines)
May(files, q) == UNION {UNION {MaySet(l, SeqSet(q), files[f].kind) : l \in FileLines(files[f])} : f \in DOMAIN files}
Must(files, q) == UNION {UNION {MustSet(l, SeqSet(q), files[f].kind) : l \in FileLines(files[f])} : f \in DOMAIN files}

(* c: enabled, files, q, err, urls (sequence). *)
Verdict(c) ==
    LET p == Permit(c.enabled, Len(c.files), c.q) IN
    IF c.err /\ c.urls # <<>> THEN "error with data"
    ELSE IF p = "error" /\ ~c.err THEN "a query outside of the permitted form is answered"
    ELSE IF p = "answer" /\ c.err THEN "a permitted query is refused"
    ELSE IF c.err THEN ""
    ELSE LET got == SeqSet(c.urls) IN
         IF Cardinality(got) # Len(c.urls) THEN "a URL is repeated"
         ELSE IF ~(got \subseteq May(c.files, c.q)) THEN "something that is not such a link is returned"
         ELSE IF ~(Must(c.files, c.q) \subseteq got) THEN "a link is missed" ELSE ""
=============================================================================

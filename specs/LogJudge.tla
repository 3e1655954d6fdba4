------------------------------ MODULE LogJudge ------------------------------
(* Recorded histories of log files.                                          *)
(*  k = "serve": sets - setting of each backend; msgs - [p, n, a, b]: message *)
(*   of backend p made of n lines between moments a and b (0 - the backend   *)
(*   was killed before it answered); alien - blocks of p = 0 alike;          *)
(*   head - the file still begins with its former contents;                  *)
(*   tail - lines <<message, line>> added to the file; err[p] - lines of     *)
(*   standard error; clean[p] - nothing else is in standard error;           *)
(*   answers[p] - the number of answers is that of requests                  *)
(*  k = "none": a run that must not serve: served, code, fails, hang         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == i = 0
(* Expected order of whole messages: the first lines. *)
Blocks(s) == SelectSeq([x \in DOMAIN s |-> [m |-> s[x][1], l |-> s[x][2], x |-> x]], LAMBDA e : e.l = 1)
Whole(c, s) == \A x \in DOMAIN s : LET n == c.msgs[s[x][1]].n IN
                  /\ s[x][2] > 1 => x > 1 /\ s[x - 1] = <<s[x][1], s[x][2] - 1>>
                  /\ s[x][2] < n => x < Len(s) /\ s[x + 1] = <<s[x][1], s[x][2] + 1>>
Ms(s) == LET b == Blocks(s) IN [x \in DOMAIN b |-> b[x].m]
Elems(s) == {s[x] : x \in DOMAIN s}
Wanted(c, ps) == {m \in DOMAIN c.msgs : c.msgs[m].p \in ps}
Answered(c, ms) == {m \in ms : c.msgs[m].b > 0}
Ordered(c, s) == \A x, y \in DOMAIN s : x < y => ~(c.msgs[s[y]].b > 0 /\ c.msgs[s[y]].b < c.msgs[s[x]].a)
Holds(c, s, ps) == LET b == Ms(s)
                       w == Wanted(c, ps) IN
                   IF ~Whole(c, s) THEN "a message is torn"
                   ELSE IF Cardinality(Elems(b)) # Len(b) THEN "a message is repeated"
                   ELSE IF ~(Elems(b) \subseteq w) THEN "a message in a wrong place"
                   ELSE IF ~(Answered(c, w) \subseteq Elems(b)) THEN "a message is lost"
                   ELSE IF ~Ordered(c, b) THEN "order of messages" ELSE ""
Procs(c, s) == {p \in DOMAIN c.sets : c.sets[p] = s}
Serve(c) == IF ~c.head THEN "former contents of the log are changed"
            ELSE LET v == Holds(c, c.tail, Procs(c, "file") \cup {0}) IN
                 IF v # "" THEN "log file: " \o v
                 ELSE IF \E p \in DOMAIN c.sets : ~c.answers[p] THEN "requests are not answered"
                 ELSE IF \E p \in DOMAIN c.sets : c.sets[p] # "err" /\ ~c.clean[p] THEN "something in standard error"
                 ELSE LET bad == {p \in DOMAIN c.sets : Holds(c, c.err[p], IF c.sets[p] = "err" THEN {p} ELSE {}) # ""} IN
                      IF bad = {} THEN "" ELSE LET p == CHOOSE p \in bad : TRUE IN "standard error: " \o Holds(c, c.err[p], IF c.sets[p] = "err" THEN {p} ELSE {})
None(c) == IF c.hang THEN "the program does not end" ELSE IF c.served THEN "requests are served" ELSE IF c.fails /\ c.code = 0 THEN "success is reported"
           ELSE IF ~c.head THEN "files are changed" ELSE ""
Why(c) == IF c.k = "serve" THEN Serve(c) ELSE None(c)
BNext == /\ i < Len(Cases) /\ i' = i + 1
         /\ LET v == Why(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

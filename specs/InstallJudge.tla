---------------------------- MODULE InstallJudge ----------------------------
(* Judges recorded installations. A case: files (old state and wanted mode  *)
(* of every target), force, moments (states of all targets just before each *)
(* file system operation), end, ok (exit status 0), killed, fault, tmps     *)
(* (number of other new files left), crash (ended by a signal).             *)
EXTENDS InstallRules, TLC, Json, IOUtils
CONSTANT OnlyAtomic
Mom(c, n, s) == IF OnlyAtomic THEN Whole(c.files[n].old, c.files[n].w, s) ELSE Moment(c.files[n].old, c.force, c.files[n].w, s)
Fin(c) == IF OnlyAtomic THEN WholeFinal(c.files, c.end, c.ok, c.fault) ELSE Final(c.files, c.force, c.end, c.ok, c.fault, c.readable)
Cases == ndJsonDeserialize(IOEnv.CASES)
Verdict(c) ==
    LET bad == {t \in DOMAIN c.moments : \E n \in DOMAIN c.files : ~Mom(c, n, c.moments[t][n])} IN
    IF bad # {} THEN "target neither in its previous nor in its new state before operation " \o ToString(CHOOSE t \in bad : \A u \in bad : t <= u)
    ELSE IF \E n \in DOMAIN c.files : ~Mom(c, n, c.end[n]) THEN "target neither in its previous nor in its new state at the end"
    ELSE IF c.killed THEN ""
    ELSE IF c.crash THEN "ended by a signal"
    ELSE IF c.tmps > 0 /\ c.fault # "remove" THEN "temporary file left behind"
    ELSE IF ~Fin(c) THEN
        (IF c.ok THEN "success reported but the target is not as requested" ELSE "error without a reason or with a changed file")
    ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

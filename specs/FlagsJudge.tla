----------------------------- MODULE FlagsJudge -----------------------------
(* A case: given (command line of the installation), rec (arguments the      *)
(* executable got from the wrapper), names (pairs of a file name and the     *)
(* canonical name of that file in the directory where the name was used),    *)
(* runs (number of starts recorded), exe (the right executable was started), *)
(* installed (exit status 0), bare (no options given), *)
(* through (a session through the wrapper has the same output).                                               *)
EXTENDS Flags, TLC, Json, IOUtils
DS == <<"doi", "https?", "mid">>
DE == <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
Canon(c, p) == LET s == {n \in DOMAIN c.names : c.names[n][1] = p} IN
               IF s = {} THEN "?" \o p ELSE c.names[CHOOSE n \in s : TRUE][2]
Verdict(c) ==
    LET a == Meaning(c.given)
        b == Meaning(c.rec)
        canon(p) == Canon(c, p) IN
    IF ~a.ok THEN (IF c.installed THEN "an unusable command line is accepted" ELSE "")
    ELSE IF ~c.installed THEN "the installation fails"
    ELSE IF ~c.through THEN "sessions with and without the wrapper differ"
    ELSE IF c.runs # 1 THEN "the backend is started " \o ToString(c.runs) \o " times"
    ELSE IF ~c.exe THEN "another executable is started"
    ELSE IF ~b.ok THEN "the arguments are not usable"
    ELSE IF b.other # {} THEN "options of the installation are passed"
    ELSE IF ~Absolute(b) THEN "a file name is not absolute"
    ELSE IF ~Same(a, b, canon) THEN "the arguments mean another configuration"
    ELSE IF c.bare /\ c.rec \notin {<<"--log", "-">>, <<"-log", "-">>, <<"--log=-">>, <<"-log=-">>} THEN "something besides the default log destination is passed"
    ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

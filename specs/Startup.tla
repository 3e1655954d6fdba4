------------------------------ MODULE Startup ------------------------------
(* What a command line of burl_backend makes it do: report an error, print   *)
(* help or version, create files of an installation or serve the browser.    *)
(* Exactly one of these; standard output is used for one thing only.         *)
EXTENDS Naturals, FiniteSets
CONSTANTS Mutant, MaxSet
Fields == [bad |-> {"unknown", "value"}, help |-> {"set"}, ver |-> {"set"}, wr |-> {"new", "old", "-"},
           ff |-> {"path", "dir", "-", "ext"}, ch |-> {"path", "dir", "-"}, force |-> {"set"},
           log |-> {"file", "bad", "empty", "-"}, notes |-> {"org", "missing", "arg"}, scheme |-> {"good", "bad"}]
Names == DOMAIN Fields
Given(c, f) == c[f] # "none"
Weight(c) == Cardinality({f \in Names : Given(c, f)})
(* Lines with at most MaxSet options, built option by option. *)
RECURSIVE Upto(_)
Default == [f \in Names |-> "none"]
Upto(n) == IF n = 0 THEN {Default}
           ELSE LET S == Upto(n - 1) IN
                S \cup UNION {UNION {{[c EXCEPT ![f] = v] : v \in Fields[f]} : f \in {g \in Names : ~Given(c, g)}} : c \in S}
Proper == Upto(MaxSet)

(* ------------------------- what is promised ------------------------------ *)
Install(c) == Given(c, "wr") \/ Given(c, "ff") \/ Given(c, "ch")
ToStdout(c) == Cardinality({f \in {"wr", "ff", "ch"} : c[f] = "-"})
Custom(c) == c.log \in {"file", "bad", "empty"} \/ Given(c, "notes") \/ Given(c, "scheme")
Contradiction(c) == ToStdout(c) > 1 \/ (c.wr = "-" /\ (Given(c, "ff") \/ Given(c, "ch"))) \/ (Custom(c) /\ ~Given(c, "wr"))
Refused(c) == Contradiction(c) \/ c.notes = "missing" \/ c.log = "bad" \/ (c.wr = "old" /\ ~Given(c, "force")) \/ c.ff = "ext"
Targets(c) == {f \in {"wr", "ff", "ch"} : Given(c, f) /\ c[f] # "-"}
ScriptOrManifest(c) == IF c.wr = "-" THEN "script" ELSE IF "-" \in {c.ff, c.ch} THEN "manifest" ELSE "none"
Fails(o) == o.code # 0 /\ o.err
(* o: code, out (none, help, version, frame, script, manifest, other), err   *)
(* (something in standard error), made (files created or changed)            *)
Allowed(c, o) ==
    IF Given(c, "bad") THEN Fails(o) /\ o.out = "none" /\ o.made = {}
    ELSE IF Given(c, "help") THEN o.code = 0 /\ o.out = "help" /\ o.made = {}
    ELSE IF Given(c, "ver") THEN o.code = 0 /\ o.out = "version" /\ o.made = {}
    ELSE IF Install(c) THEN
         IF Refused(c) THEN /\ Fails(o) /\ o.out \in {"none", ScriptOrManifest(c)}
                            /\ o.made \subseteq Targets(c)
                            /\ (c.wr = "old" /\ ~Given(c, "force")) => "wr" \notin o.made
                            /\ Contradiction(c) => o.out = "none" /\ o.made = {}
         ELSE o.code = 0 /\ o.out = ScriptOrManifest(c) /\ o.made = Targets(c)
    ELSE IF c.log = "bad" \/ c.scheme = "bad" THEN Fails(o) /\ o.out = "none" /\ o.made \subseteq {"log"}
    ELSE o.code = 0 /\ o.out = "frame" /\ o.made = (IF c.log = "file" THEN {"log"} ELSE {})

(* ----------------------------- the program ------------------------------- *)
VARIABLES c, stage, o
vars == <<c, stage, o>>
Quiet == [code |-> 0, out |-> "none", err |-> FALSE, made |-> {}]
Init == c \in Proper /\ stage = "parse" /\ o = Quiet
To(s) == stage' = s /\ UNCHANGED <<c, o>>
Stop(x) == stage' = "end" /\ o' = x /\ UNCHANGED c
Fail == Stop([o EXCEPT !.code = 1, !.err = TRUE])
Order == IF Mutant = "log_first" THEN "log" ELSE "general"
Parse == stage = "parse" /\ IF Given(c, "bad") THEN Stop([o EXCEPT !.code = 2, !.err = TRUE, !.out = IF Mutant = "usage_stdout" THEN "help" ELSE "none"]) ELSE To(Order)
General == stage = "general" /\
           IF Given(c, "help") THEN Stop([o EXCEPT !.out = "help"])
           ELSE IF Given(c, "ver") THEN Stop([o EXCEPT !.out = "version"])
           ELSE To(IF Install(c) THEN "check" ELSE IF Mutant = "log_first" THEN "scheme" ELSE "log")
Check == stage = "check" /\ IF Contradiction(c) /\ Mutant # "late_check" THEN Fail
                            ELSE IF c.notes = "missing" \/ c.log = "bad" THEN Fail ELSE To("wr")
Make(f, s, out) == IF c[f] = "-" THEN stage' = s /\ o' = [o EXCEPT !.out = out] /\ UNCHANGED c
                   ELSE IF c[f] \in {"new", "path", "dir"} \/ (c[f] = "old" /\ (Given(c, "force") \/ Mutant = "forced"))
                        THEN stage' = s /\ o' = [o EXCEPT !.made = @ \cup {f}] /\ UNCHANGED c
                   ELSE IF Given(c, f) THEN Fail ELSE To(s)
Wr == stage = "wr" /\ Make("wr", "ff", "script")
Ff == stage = "ff" /\ Make("ff", "ch", "manifest")
Ch == stage = "ch" /\ IF Contradiction(c) /\ Mutant = "late_check" THEN Fail
                      ELSE Make("ch", IF Mutant = "serves_too" THEN "log" ELSE "end", "manifest")
Log == stage = "log" /\ IF c.log = "bad" THEN Fail
                        ELSE /\ stage' = (IF Mutant = "log_first" THEN "general" ELSE "scheme") /\ UNCHANGED c
                             /\ o' = [o EXCEPT !.made = IF c.log = "file" THEN @ \cup {"log"} ELSE @]
Scheme == stage = "scheme" /\ IF c.scheme = "bad" /\ Mutant # "late_scheme" THEN Fail ELSE To("serve")
Serve == stage = "serve" /\ IF c.scheme = "bad" THEN Stop([o EXCEPT !.code = 1, !.err = TRUE, !.out = "frame"])
                            ELSE Stop([o EXCEPT !.out = "frame"])
Next == Parse \/ General \/ Check \/ Wr \/ Ff \/ Ch \/ Log \/ Scheme \/ Serve
Spec == Init /\ [][Next]_vars
Promise == stage = "end" => Allowed(c, o)
(* Every command line comes to an end. *)
Total == stage = "end" \/ ENABLED Next
=============================================================================

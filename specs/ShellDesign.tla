----------------------------- MODULE ShellDesign -----------------------------
(* Quoting of every short pair of values gives the same two arguments.       *)
EXTENDS Shell, TLC, Json
CONSTANTS Alphabet, MaxLen, Mutant, Gen
VARIABLES a, b
vars == <<a, b>>
Init == a = <<>> /\ b = <<>>
Next == \E c \in Alphabet : \/ Len(a) < MaxLen /\ a' = Append(a, c) /\ b = <<>> /\ b' = b
                            \/ Len(b) < MaxLen - 3 /\ b' = Append(b, c) /\ a' = a
Spec == Init /\ [][Next]_vars
RECURSIVE Esc(_, _)
Esc(s, k) == IF k > Len(s) THEN <<>>
             ELSE (IF s[k] = "'" THEN (IF Mutant = "backslash" THEN <<"\\", "'">> ELSE IF Mutant = "none" \/ k > 1 THEN <<"'", "\\", "'", "'">> ELSE <<"'">>)
                   ELSE <<s[k]>>) \o Esc(s, k + 1)
Quote(s) == IF Mutant = "double" THEN <<"\"">> \o s \o <<"\"">> ELSE
            IF Mutant = "plain" /\ \A k \in DOMAIN s : s[k] # "'" THEN s ELSE <<"'">> \o Esc(s, 1) \o <<"'">>
Faithful == Lex(Quote(a) \o <<" ">> \o Quote(b)) = <<a, b>>
Emit == Gen => (b = <<>> => PrintT("@@" \o ToJson([v |-> a])))
=============================================================================

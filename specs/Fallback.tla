------------------------------ MODULE Fallback ------------------------------
(* How the wrapper composes its error frame (C20): the text is the path with *)
(* bytes special for JSON replaced, the length is counted in bytes and       *)
(* written as 4 octets with the help of octal or hexadecimal escapes.        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxPath, Mutant
(* A path is a number of one byte characters, two byte characters and quotes. *)
VARIABLES plain, wide, quotes
vars == <<plain, wide, quotes>>
Fixed == 56
Init == plain \in {n \in 0..MaxPath : n < 600 \/ n > MaxPath - 300 \/ n % 256 \in {255 - Fixed, 256 - Fixed, 0, 1, 255}} /\ wide \in {0, 1, 100} /\ quotes \in {0, 1, 3}
Next == UNCHANGED vars
Bytes == plain + 2 * wide + quotes
Chars == plain + wide + quotes
(* A quote would end the JSON string unless replaced; escaping makes the body longer. *)
Body == Fixed + (IF Mutant = "escape" THEN Bytes + quotes ELSE Bytes)
Counted == CASE Mutant = "chars" -> Fixed + Chars
             [] Mutant = "escape" -> Fixed + Bytes
             [] OTHER -> Body
Octets == <<Counted % 256, IF Mutant = "onebyte" THEN 0 ELSE (Counted \div 256) % 256, 0, 0>>
(* A variable of the shell can not hold a zero byte. *)
Written == IF Mutant = "variable" THEN SelectSeq(Octets, LAMBDA o : o # 0) ELSE Octets
Wellformed == Len(Written) = 4 /\ Written[1] + 256 * Written[2] = Body
=============================================================================

---------------------------- MODULE InstallRules ----------------------------
(* What installing a file may do to its target (C17, C18). A file state is   *)
(* [k, c, m, id]: kind ("absent", "file", "other" for anything that is not a *)
(* regular file), content ("new" is the wanted one), permissions, identity.  *)
EXTENDS Naturals, Sequences, FiniteSets
Bit(m, b) == (m \div b) % 2 = 1
Plus(m, b) == IF Bit(m, b) THEN m ELSE m + b
(* Owner permissions the wanted file needs to be readable, executable. *)
OwnerBits(w) == (IF Bit(w, 256) THEN {256} ELSE {}) \cup (IF Bit(w, 64) THEN {64} ELSE {})
Completed(m, w) == IF 64 \in OwnerBits(w) THEN Plus(Plus(m, 256), 64)
                   ELSE IF 256 \in OwnerBits(w) THEN Plus(m, 256) ELSE m
Plan(old, force) ==
    CASE old.k = "absent" -> "create"
      [] old.k = "other" -> "refuse"
      [] old.c = "new" -> "keep"
      [] force -> "replace"
      [] OTHER -> "refuse"
IsNew(s, w) == s.k = "file" /\ s.c = "new" /\ s.m = w
(* The intended state in the end. *)
Done(old, force, w, s) ==
    CASE Plan(old, force) = "create" -> IsNew(s, w)
      [] Plan(old, force) = "replace" -> IsNew(s, w)
      [] Plan(old, force) = "keep" -> s = [old EXCEPT !.m = Completed(old.m, w)]
      [] OTHER -> s = old
(* Every moment, including the ones after a crash or a failure. *)
Moment(old, force, w, s) == s = old \/ (Plan(old, force) # "refuse" /\ Done(old, force, w, s))
(* The same without deciding whether the file may be replaced (C18 alone). *)
Kept(old, w, s) == old.k = "file" /\ old.c = "new" /\ s = [old EXCEPT !.m = Completed(old.m, w)]
Whole(old, w, s) == s = old \/ IsNew(s, w) \/ Kept(old, w, s)
WholeFinal(files, end, ok, fault) ==
    ok /\ fault # "" => \A n \in DOMAIN files : IsNew(end[n], files[n].w) \/ Kept(files[n].old, files[n].w, end[n])
(* files: targets of one command, each [old, w]; end: their final states; *)
(* fault: class of the operations that were made to fail, "" for none.     *)
Final(files, force, end, ok, fault, readable) ==
    LET refused == \E n \in DOMAIN files : Plan(files[n].old, force) = "refuse" IN
    IF ok THEN ~refused /\ \A n \in DOMAIN files : Done(files[n].old, force, files[n].w, end[n])
    ELSE /\ fault # "" \/ refused \/ ~readable
         /\ \A n \in DOMAIN files : Moment(files[n].old, force, files[n].w, end[n])
         /\ \A n \in DOMAIN files : Plan(files[n].old, force) = "refuse" => end[n] = files[n].old
=============================================================================

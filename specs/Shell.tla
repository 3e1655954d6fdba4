-------------------------------- MODULE Shell --------------------------------
(* Words of a POSIX shell command (C19). Lex gives the arguments a command   *)
(* word list has, or <<"?">> when it contains something that the shell would *)
(* expand or that is not finished. Strings are sequences of characters.      *)
EXTENDS Naturals, Sequences
Blank == {" ", "\t"}
Special == {"$", "`", "*", "?", "[", "~", "#", "&", "|", ";", "<", ">", "(", ")", "!", "{"}
(* st: [mode, word, has, out]; mode "", "s" in single quotes, "d" in double quotes. *)
Lex0 == [mode |-> "", word |-> <<>>, has |-> FALSE, out |-> <<>>, bad |-> FALSE]
End(st) == IF st.has THEN [st EXCEPT !.out = Append(@, st.word), !.word = <<>>, !.has = FALSE] ELSE st
Put(st, c) == [st EXCEPT !.word = Append(@, c), !.has = TRUE]
RECURSIVE LexFrom(_, _, _)
LexFrom(st, s, k) ==
    IF k > Len(s) THEN (IF st.mode # "" \/ st.bad THEN [st EXCEPT !.bad = TRUE] ELSE End(st))
    ELSE LET c == s[k] IN
    CASE st.mode = "s" -> LexFrom(IF c = "'" THEN [st EXCEPT !.mode = ""] ELSE Put(st, c), s, k + 1)
      [] st.mode = "d" ->
            IF c = "\"" THEN LexFrom([st EXCEPT !.mode = ""], s, k + 1)
            ELSE IF c = "\\" /\ k < Len(s) /\ s[k + 1] \in {"$", "`", "\"", "\\"} THEN LexFrom(Put(st, s[k + 1]), s, k + 2)
            ELSE IF c \in {"$", "`"} THEN [st EXCEPT !.bad = TRUE]
            ELSE LexFrom(Put(st, c), s, k + 1)
      [] c = "'" -> LexFrom([st EXCEPT !.mode = "s", !.has = TRUE], s, k + 1)
      [] c = "\"" -> LexFrom([st EXCEPT !.mode = "d", !.has = TRUE], s, k + 1)
      [] c = "\\" -> IF k = Len(s) THEN [st EXCEPT !.bad = TRUE]
                     ELSE IF s[k + 1] = "\n" THEN LexFrom(st, s, k + 2)
                     ELSE LexFrom(Put(st, s[k + 1]), s, k + 2)
      [] c \in Blank -> LexFrom(End(st), s, k + 1)
      [] c = "\n" \/ c \in Special -> [st EXCEPT !.bad = TRUE]
      [] OTHER -> LexFrom(Put(st, c), s, k + 1)
Lex(s) == LET r == LexFrom(Lex0, s, 1) IN IF r.bad THEN <<"?">> ELSE r.out
=============================================================================

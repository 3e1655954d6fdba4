-------------------------------- MODULE Flags --------------------------------
(* Meaning of a command line of the backend (C19, C22).                      *)
EXTENDS MultiFlag, FiniteSets
CONSTANTS DefSchemes, DefEmacsArgs
StringOpts == {"log", "emacsclient", "backend", "manifest-firefox", "manifest-chrome", "wrapper"}
MultiOpts == {"scheme", "emacsarg", "mozilla-extension", "chrome-extension"}
SrcOpts == {"org", "txt"}
BoolOpts == {"disable-link-set", "force", "h", "help", "v", "V", "version"}
True == {"1", "t", "T", "TRUE", "true", "True"}
False == {"0", "f", "F", "FALSE", "false", "False"}
Fresh == [ok |-> TRUE, log |-> "-", linkset |-> TRUE, emacsclient |-> "emacsclient",
          multi |-> [scheme |-> MInit(DefSchemes), emacsarg |-> MInit(DefEmacsArgs)],
          srcs |-> <<>>, other |-> {}]
Bad(c) == [c EXCEPT !.ok = FALSE]
HasSuffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Positional(c, args) == [c EXCEPT !.srcs = @ \o [n \in DOMAIN args |->
                          [t |-> IF HasSuffix(args[n], ".org") THEN "org" ELSE "txt", p |-> args[n]]]]
(* Position of the first "=" of s at or after k, 0 if none. *)
RECURSIVE Eq(_, _)
Eq(s, k) == IF k > Len(s) THEN 0 ELSE IF SubSeq(s, k, k) = "=" THEN k ELSE Eq(s, k + 1)
Apply(c, name, v) ==
    CASE name = "log" -> [c EXCEPT !.log = v]
      [] name = "emacsclient" -> [c EXCEPT !.emacsclient = v]
      [] name = "disable-link-set" -> IF v \in True \cup False THEN [c EXCEPT !.linkset = v \notin True] ELSE Bad(c)
      [] name \in SrcOpts -> [c EXCEPT !.srcs = Append(@, [t |-> name, p |-> v])]
      [] name \in {"scheme", "emacsarg"} -> IF Refused(c.multi[name], v) THEN Bad(c) ELSE [c EXCEPT !.multi[name] = MSet(@, v)]
      [] OTHER -> [c EXCEPT !.other = @ \cup {name}]
Known == StringOpts \cup MultiOpts \cup SrcOpts \cup BoolOpts
RECURSIVE Parse(_, _)
Parse(c, args) ==
    IF args = <<>> \/ ~c.ok THEN c ELSE
    LET a == args[1]
        rest == SubSeq(args, 2, Len(args)) IN
    IF Len(a) < 2 \/ SubSeq(a, 1, 1) # "-" THEN Positional(c, args)
    ELSE IF a = "--" THEN Positional(c, rest)
    ELSE LET body == IF SubSeq(a, 1, 2) = "--" THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 2, Len(a))
             e == Eq(body, 2)
             name == IF e = 0 THEN body ELSE SubSeq(body, 1, e - 1)
             val == SubSeq(body, e + 1, Len(body)) IN
         IF name \notin Known THEN Bad(c)
         ELSE IF e # 0 THEN Parse(Apply(c, name, val), rest)
         ELSE IF name \in BoolOpts THEN Parse(Apply(c, name, "true"), rest)
         ELSE IF rest = <<>> THEN Bad(c)
         ELSE Parse(Apply(c, name, rest[1]), SubSeq(rest, 2, Len(rest)))
Meaning(args) == Parse(Fresh, args)
(* The configuration proper; canon maps file names to names of the same file. *)
Same(a, b, canon(_)) ==
    /\ a.ok /\ b.ok
    /\ a.linkset = b.linkset /\ a.emacsclient = b.emacsclient
    /\ a.multi["scheme"].list = b.multi["scheme"].list
    /\ a.multi["emacsarg"].list = b.multi["emacsarg"].list
    /\ IF a.log \in {"", "-"} THEN b.log = a.log ELSE canon(a.log) = canon(b.log)
    /\ Len(a.srcs) = Len(b.srcs)
    /\ \A n \in DOMAIN a.srcs : a.srcs[n].t = b.srcs[n].t /\ canon(a.srcs[n].p) = canon(b.srcs[n].p)
Absolute(c) == /\ c.log \in {"", "-"} \/ SubSeq(c.log, 1, 1) = "/"
               /\ \A n \in DOMAIN c.srcs : SubSeq(c.srcs[n].p, 1, 1) = "/"
=============================================================================

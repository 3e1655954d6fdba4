----------------------------- MODULE FlagsDesign -----------------------------
(* All command lines up to a length; the configuration written down as       *)
(* arguments means the same again.                                           *)
EXTENDS Flags, TLC
CONSTANTS Tokens, MaxLen, Mutant
VARIABLE args
Init == args = <<>>
Next == Len(args) < MaxLen /\ \E t \in Tokens : args' = Append(args, t)
Spec == Init /\ [][Next]_args
Opt(name, vs) == [n \in DOMAIN vs |-> "--" \o name \o "=" \o vs[n]]
Given(c, name) == IF Mutant = "noreset" THEN SelectSeq(Modified(c.multi[name]), LAMBDA x : x # "")
                  ELSE IF Mutant = "effective" THEN c.multi[name].list
                  ELSE Modified(c.multi[name])
Serialize(c) ==
    <<"--log", c.log>>
    \o (IF c.linkset \/ Mutant = "nolinkset" THEN <<>> ELSE <<"--disable-link-set=true">>)
    \o (IF c.emacsclient = "emacsclient" THEN <<>> ELSE
        IF Mutant = "bareword" THEN <<"--emacsclient", "=", c.emacsclient>> ELSE <<"--emacsclient=" \o c.emacsclient>>)
    \o Opt("emacsarg", Given(c, "emacsarg")) \o Opt("scheme", Given(c, "scheme"))
    \o [n \in DOMAIN c.srcs |-> IF Mutant = "positional" THEN c.srcs[n].p ELSE "--" \o c.srcs[n].t \o "=" \o c.srcs[n].p]
D1 == <<"doi", "https?">>
D0 == <<>>
canon(p) == p
RoundTrip == LET m == Meaning(args) IN m.ok => Same(m, Meaning(Serialize(m)), canon)
Bare == Meaning(<<>>) = Fresh /\ Serialize(Fresh) = <<"--log", "-">>
=============================================================================

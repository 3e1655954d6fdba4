-------------------------------- MODULE Api --------------------------------
(* Dispatch of requests (C05) and the hello handshake (C16): which names are  *)
(* callable, what a request may do, and what is announced to the browser.     *)
EXTENDS Naturals, Sequences, FiniteSets

Ops == {"hello", "capture", "visit", "urlMentions", "linkSet"}
Long == {"linkremark.", "burl."}
Prefixes(op) == IF op \in {"hello", "capture"} THEN Long \cup {""} ELSE Long
Published == {<<p, op>> : p \in Long \cup {""}, op \in Ops} \cap
             UNION {{<<p, op>> : p \in Prefixes(op)} : op \in Ops}
PublishedNames == {n[1] \o n[2] : n \in Published}
OpOf(name) == CHOOSE op \in Ops : \E n \in Published : n[2] = op /\ n[1] \o n[2] = name

(* Candidates for names that are not published: names of the implementing     *)
(* type, other spelling, operations that exist but are not published.         *)
Heads == {"", "linkremark.", "burl.", "Burl.", "BURL.", "BurlBackend.", "unknown.", "unknown.burl.",
          "unknown.Burl.", "burl.burl.", "linkremark.burl.", ".", "burl", "burl..", " burl.", "burl/",
          "main.", "rpc.", "Linkremark.", "burl.Burl."}
Tails == Ops \cup {"Hello", "Capture", "Visit", "UrlMentions", "LinkSet", "HELLO", "urlmentions", "linkset",
          "search", "Search", "", "hello ", "visit\n", "hello.hello", "capture.", "Visit()", "initializer"}
Names == {h \o t : h \in Heads, t \in Tails}

(* Parameters: "good" ones fit the operation, the rest are unusable.          *)
ParamKinds == {"good", "null", "missing", "empty", "emptyobj", "object", "number", "string", "nested", "badtype", "nullelem"}

(* cfg: files - note files are configured, linkset - link sets are enabled.   *)
Configs == [files : BOOLEAN, linkset : BOOLEAN]

Answers(op, cfg) == CASE op = "hello" -> "ok"
                      [] op = "capture" -> "ok"
                      [] op = "visit" -> IF cfg.files THEN "ok" ELSE "error"
                      [] op = "urlMentions" -> IF cfg.files THEN "ok" ELSE "error"
                      [] op = "linkSet" -> IF cfg.linkset THEN "ok" ELSE "error"
(* With no files and link sets enabled any request gives an empty set, the    *)
(* query is not looked at: nothing is claimed about it.                       *)
Free(name, pk, cfg) == /\ name \in PublishedNames /\ OpOf(name) = "linkSet"
                       /\ cfg.linkset /\ ~cfg.files /\ pk # "good"
Outcome(name, pk, cfg) == IF name \notin PublishedNames \/ pk # "good" THEN "error" ELSE Answers(OpOf(name), cfg)
(* Emacs is started by successful captures and visits only.                   *)
MayStartEmacs(name, pk, cfg) == /\ Outcome(name, pk, cfg) = "ok"
                                /\ OpOf(name) \in {"capture", "visit"}

Capabilities(cfg) == IF ~cfg.files THEN {}
                     ELSE {"visit", "urlMentions"} \cup (IF cfg.linkset THEN {"linkSet"} ELSE {})

(* The machine: requests of one session one after another.                    *)
CONSTANTS MaxCalls, Mutant
VARIABLES cfg, calls, starts
vars == <<cfg, calls, starts>>
Init == cfg \in Configs /\ calls = <<>> /\ starts = 0
(* The server: name map first, then the implementation gets the parameters.   *)
Target(name) == IF name \in PublishedNames THEN OpOf(name)
                ELSE IF Mutant = "passthrough" /\ \E op \in Ops : name = "Burl." \o op
                     THEN CHOOSE op \in Ops : name = "Burl." \o op ELSE "none"
Call(name, pk) ==
    /\ Len(calls) < MaxCalls
    /\ LET op == Target(name)
           good == op # "none" /\ pk = "good" /\ Answers(op, cfg) = "ok" IN
       /\ calls' = Append(calls, [name |-> name, pk |-> pk, out |-> IF good THEN "ok" ELSE "error"])
       /\ starts' = starts + (IF good /\ op \in {"capture", "visit"} THEN 1 ELSE 0)
    /\ UNCHANGED cfg
Next == \E name \in Names, pk \in ParamKinds : Call(name, pk)

OutcomeInv == \A k \in DOMAIN calls : calls[k].out = Outcome(calls[k].name, calls[k].pk, cfg)
StartsInv == starts = Cardinality({k \in DOMAIN calls : MayStartEmacs(calls[k].name, calls[k].pk, cfg)})
(* All names of one operation are the same thing.                             *)
AliasInv == \A j, k \in DOMAIN calls :
    (/\ {calls[j].name, calls[k].name} \subseteq PublishedNames
     /\ OpOf(calls[j].name) = OpOf(calls[k].name) /\ calls[j].pk = calls[k].pk) => calls[j].out = calls[k].out
=============================================================================

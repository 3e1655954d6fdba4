--------------------------- MODULE ManifestDesign ---------------------------
(* A procedure deriving names and paths step by step gives what Manifest     *)
(* demands; what is written is always consistent.                            *)
EXTENDS Manifest, TLC
CONSTANT Mutant
D2 == <<>>
D3 == <<"f@x">>
D4 == <<"abc">>
GivenSet == {<<>>, <<"-log", "-">>, <<"-log", "x">>, <<"n.org">>, <<"-scheme", "">>, <<"-disable-link-set=false">>}
IdSet == {<<>>, <<"b">>, <<"">>, <<"", "b">>, <<"b", "">>, <<"b", "c">>}
TargetSet == {[kind |-> "file", abs |-> a] : a \in {"/d/n.json", "/d/.json", "/d/n.JSON", "/d/n.txt", "/d/json", "/d/io.x.json", "/d/n.json.json"}}
             \cup {[kind |-> "dir", abs |-> "/d"], [kind |-> "dir", abs |-> "/d.json"], [kind |-> "stdout", abs |-> "-"], [kind |-> "noparent", abs |-> "/x/n.json"]}
VARIABLES req, pc, name, file, out
vars == <<req, pc, name, file, out>>
None == [name |-> "", path |-> "", type |-> "", allowed |-> <<>>, browser |-> ""]
Init == /\ req \in [given : GivenSet, name : {"", "n", "io.x", "a/b"}, exe : {"/bin/b"}, malformed : {<<>>, <<"n">>, <<"/bin/b", "b">>, <<"/w">>},
                    wrapper : {[kind |-> "none", path |-> ""], [kind |-> "free", path |-> "/w"], [kind |-> "bad", path |-> ""], [kind |-> "stdout", path |-> ""]},
                    parts : {<<[browser |-> b, kind |-> t.kind, abs |-> t.abs, ids |-> i]>> : b \in {"firefox", "chrome"}, t \in TargetSet, i \in IdSet}]
        /\ pc = "options" /\ name = "" /\ file = "" /\ out = None
P == req.parts[1]
Fail == pc' = "failed" /\ UNCHANGED <<req, name, file, out>>
Options == /\ pc = "options"
           /\ IF \/ ~Meaning(req.given).ok \/ IdsRefused(P) \/ req.wrapper.kind \in {"bad", "stdout"}
                 \/ (req.wrapper.kind = "none" /\ Custom(Meaning(req.given)) /\ Mutant # "nowrapper")
              THEN Fail ELSE pc' = "place" /\ UNCHANGED <<req, name, file, out>>
Place2 == /\ pc = "place"
          /\ CASE P.kind = "noparent" -> Fail
               [] P.kind = "stdout" -> pc' = "check" /\ name' = Wish(req) /\ file' = "-" /\ UNCHANGED <<req, out>>
               [] P.kind = "dir" -> /\ pc' = "check" /\ name' = Wish(req) /\ UNCHANGED <<req, out>>
                                    /\ file' = P.abs \o "/" \o (IF Mutant = "default" THEN AppName ELSE Wish(req)) \o ".json"
               [] OTHER -> IF (req.name # "" /\ Base(P.abs) # req.name \o ".json" /\ Mutant # "anyname") \/ (~IsJson(Ext(Base(P.abs))) /\ Mutant # "anyext") THEN Fail
                           ELSE /\ pc' = "check" /\ file' = P.abs /\ UNCHANGED <<req, out>>
                                /\ name' = IF Mutant = "anyname" THEN Wish(req) ELSE Stem(Base(P.abs))
Check == /\ pc = "check"
         /\ IF \/ (Mutant # "anybytes" /\ \E n \in DOMAIN req.malformed : req.malformed[n] \in {name, Exe(req)} \cup {Ids(P)[k] : k \in DOMAIN Ids(P)})
               \/ name = "" \/ (Ids(P) = <<>> /\ Mutant # "noids")
               \/ (file # "-" /\ (~IsJson(Ext(Base(file))) \/ Stem(Base(file)) # name) /\ Mutant \notin {"anyname", "anyext", "default"})
            THEN Fail
            ELSE /\ pc' = "done" /\ UNCHANGED <<req, name, file>>
                 /\ out' = [name |-> name, path |-> Exe(req), type |-> "stdio", allowed |-> Permitted(P), browser |-> P.browser]
Next == Options \/ Place2 \/ Check
Spec == Init /\ [][Next]_vars
AsDemanded == /\ pc = "done" => RequestOk(req) /\ PartOk(req, P) /\ file = Place(req, P).file /\ out = Content(req, P)
              /\ pc = "failed" => ~(RequestOk(req) /\ PartOk(req, P))
Consistent == pc = "done" => /\ out.allowed # <<>> /\ out.name # "" /\ out.path # "" /\ C1(out.path, 1) = "/"
                             /\ file # "-" => Stem(Base(file)) = out.name /\ IsJson(Ext(Base(file)))
=============================================================================

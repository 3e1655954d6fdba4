---------------------------- MODULE ManifestJudge ----------------------------
(* A case: the request (see Manifest), done (exit status 0), outs (manifests *)
(* found afterwards: file, valid, name, path, type, allowed, browser).       *)
EXTENDS Manifest, TLC, Json, IOUtils
DS == <<"doi", "https?", "mid">>
DE == <<>>
DA == "io.github.maxnikulin.burl"
DF == <<"linkremark@maxnikulin.github.io">>
DC == <<"mgmcoaemjnaehlliifkgljdnbpedihoe">>
Cases == ndJsonDeserialize(IOEnv.CASES)
ForFile(c, f) == {n \in DOMAIN c.parts : PartOk(c, c.parts[n]) /\ Place(c, c.parts[n]).file = f}
Plain(o) == [name |-> o.name, path |-> o.path, type |-> o.type, allowed |-> o.allowed, browser |-> o.browser]
Verdict(c) ==
    LET good == RequestOk(c) /\ \A n \in DOMAIN c.parts : PartOk(c, c.parts[n])
        wrong == {k \in DOMAIN c.outs : ~RequestOk(c) \/ ForFile(c, c.outs[k].file) = {}}
        other == {k \in DOMAIN c.outs \ wrong : ~c.outs[k].valid \/ \A n \in ForFile(c, c.outs[k].file) : Plain(c.outs[k]) # Content(c, c.parts[n])} IN
    IF c.done /\ ~good THEN "the request has to be refused"
    ELSE IF ~c.done /\ good THEN "the request is refused"
    ELSE IF wrong # {} THEN "a manifest is written though it has to be refused, or elsewhere"
    ELSE IF other # {} THEN "the manifest is not the expected one"
    ELSE IF good /\ \E n \in DOMAIN c.parts : \A k \in DOMAIN c.outs : c.outs[k].file # Place(c, c.parts[n]).file THEN "the manifest is not written"
    ELSE ""
VARIABLE i
BInit == i = 0
BNext == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET v == Verdict(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

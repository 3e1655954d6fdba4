------------------------------ MODULE Manifest ------------------------------
(* What a request for manifests has to produce (C21). A request:             *)
(* given - options of the backend; name - requested backend name or "";      *)
(* wrapper - [kind: "none", "stdout", "free", "bad", "self"; path];          *)
(* parts - manifests [browser, kind: "stdout", "dir", "file", "noparent";    *)
(* abs: cleaned absolute target; ids: values given for permitted add-ons];   *)
(* malformed - the strings of the request that are not UTF-8 text.           *)
EXTENDS Flags
CONSTANTS AppName, DefFirefox, DefChrome
C1(s, k) == SubSeq(s, k, k)
RECURSIVE LastOf(_, _, _)
LastOf(s, c, k) == IF k = 0 THEN 0 ELSE IF C1(s, k) = c THEN k ELSE LastOf(s, c, k - 1)
Base(p) == SubSeq(p, LastOf(p, "/", Len(p)) + 1, Len(p))
(* Extension is what starts at the last dot of the base name. *)
Ext(b) == LET k == LastOf(b, ".", Len(b)) IN IF k = 0 THEN "" ELSE SubSeq(b, k, Len(b))
IsJson(e) == /\ Len(e) = 5 /\ C1(e, 1) = "." /\ C1(e, 2) \in {"j", "J"} /\ C1(e, 3) \in {"s", "S"}
             /\ C1(e, 4) \in {"o", "O"} /\ C1(e, 5) \in {"n", "N"}
Stem(b) == SubSeq(b, 1, Len(b) - Len(Ext(b)))
Custom(m) == \/ m.log # "-" \/ ~m.linkset \/ m.emacsclient # "emacsclient" \/ m.srcs # <<>>
             \/ m.multi["scheme"].st # "initial" \/ m.multi["emacsarg"].st # "initial"
Ids(part) == MAll(MInit(IF part.browser = "firefox" THEN DefFirefox ELSE DefChrome), part.ids).list
IdsRefused(part) == AnyRefused(MInit(IF part.browser = "firefox" THEN DefFirefox ELSE DefChrome), part.ids)
HasPrefix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Origin(id) == IF HasPrefix(id, "chrome-extension://") THEN id ELSE "chrome-extension://" \o id \o "/"
Permitted(part) == IF part.browser = "firefox" THEN Ids(part) ELSE [n \in DOMAIN Ids(part) |-> Origin(Ids(part)[n])]
Wish(r) == IF r.name # "" THEN r.name ELSE AppName
(* File to be written and name in it; name "" - refused. *)
Place(r, part) ==
    CASE part.kind = "stdout" -> [file |-> "-", name |-> Wish(r)]
      [] part.kind = "noparent" -> [file |-> "", name |-> ""]
      [] part.kind = "dir" -> IF LastOf(Wish(r), "/", Len(Wish(r))) > 0 THEN [file |-> "", name |-> ""]
                              ELSE [file |-> part.abs \o "/" \o Wish(r) \o ".json", name |-> Wish(r)]
      [] OTHER -> LET b == Base(part.abs) IN
                  IF ~IsJson(Ext(b)) \/ Stem(b) = "" \/ (r.name # "" /\ b # r.name \o ".json") THEN [file |-> "", name |-> ""]
                  ELSE [file |-> part.abs, name |-> Stem(b)]
Exe(r) == IF r.wrapper.kind \in {"free", "self"} THEN r.wrapper.path ELSE r.exe
Texts(r, part) == {Place(r, part).name, Exe(r)} \cup {Ids(part)[n] : n \in DOMAIN Ids(part)}
PartOk(r, part) == Place(r, part).name # "" /\ Ids(part) # <<>> /\ ~IdsRefused(part)
                   /\ Texts(r, part) \cap {r.malformed[n] : n \in DOMAIN r.malformed} = {}
(* The whole request, apart from single manifests. *)
RequestOk(r) ==
    LET m == Meaning(r.given) IN
    /\ m.ok
    /\ \A n \in DOMAIN r.parts : ~IdsRefused(r.parts[n])
    /\ r.wrapper.kind \in {"none", "free", "self"}
    /\ Custom(m) => r.wrapper.kind = "free"
    /\ Cardinality({n \in DOMAIN r.parts : r.parts[n].kind = "stdout"}) <= 1
Content(r, part) == [name |-> Place(r, part).name, path |-> Exe(r), type |-> "stdio", allowed |-> Permitted(part), browser |-> part.browser]
=============================================================================

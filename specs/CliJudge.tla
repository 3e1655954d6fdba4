------------------------------ MODULE CliJudge ------------------------------
(* Recorded runs of the tools.                                               *)
(*  tool "client": op, args, good, file, line; n - requests, got - the last  *)
(*   one [method, param fields, other: what should not be there, same: the   *)
(*   parameter of hello is the given one]; reply, shown ("result", "none",   *)
(*   "other"), code, status                                                  *)
(*  tool "query": good, shown, code                                          *)
EXTENDS Cli, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
BInit == Init /\ usage = TRUE /\ starts = TRUE /\ i = 0
Request(c) == IF c.n = 0 THEN ""
              ELSE IF c.got.method # Method(c.op) THEN "method"
              ELSE IF c.got.other # <<>> THEN "unexpected parameters"
              ELSE IF c.op = "hello" THEN (IF c.got.same THEN "" ELSE "parameter of hello")
              ELSE IF c.got.p # Params(c.op, c.args, c.file, c.line) THEN "parameters" ELSE ""
Why(c) == IF c.hang THEN "the tool does not end"
          ELSE IF c.tool = "query" THEN (IF (c.code = 0) # c.good THEN "exit status" ELSE "")
          ELSE IF c.shown = "other" THEN "printed text is not the result"
          ELSE IF ~Judged(c.good, c.n, c.reply, c.shown = "result", c.code, c.status) THEN "outcome"
          ELSE Request(c)
BNext == /\ i < Len(Cases) /\ i' = i + 1 /\ UNCHANGED vars
         /\ LET v == Why(Cases[i']) IN v # "" => PrintT("@@" \o ToJson([bad |-> i', why |-> [what |-> v]]))
=============================================================================

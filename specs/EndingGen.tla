------------------------------ MODULE EndingGen ------------------------------
(* Plans: O a request answered at once, B one with a large reply, V a        *)
(* request held by Emacs (visit), P H a part of a request, of its header;    *)
(* r Emacs is done with one of the held ones;                                *)
(* I input is closed, G the reader of the output disappears, T SIGTERM,      *)
(* s the reader stops reading, u it reads again, . pause,                    *)
(* ? is the program running?                                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES plan, inp, outp, term, held, stall, part
gvars == <<plan, inp, outp, term, held, stall, part>>
GInit == plan = <<>> /\ inp = TRUE /\ outp = TRUE /\ term = FALSE /\ held = 0 /\ stall = FALSE /\ part = FALSE
Do(a) == plan' = Append(plan, a)
Step == \/ inp /\ ~part /\ (\E a \in {"O", "B"} : Do(a)) /\ UNCHANGED <<inp, outp, term, held, stall, part>>
        \/ inp /\ ~part /\ held < 3 /\ Do("V") /\ held' = held + 1 /\ UNCHANGED <<inp, outp, term, stall, part>>
        \/ inp /\ ~part /\ part' = TRUE /\ (\E a \in {"P", "H"} : Do(a)) /\ UNCHANGED <<inp, outp, term, held, stall>>
        \/ held > 0 /\ Do("r") /\ held' = held - 1 /\ UNCHANGED <<inp, outp, term, stall, part>>
        \/ inp /\ inp' = FALSE /\ Do("I") /\ UNCHANGED <<outp, term, held, stall, part>>
        \/ outp /\ outp' = FALSE /\ Do("G") /\ UNCHANGED <<inp, term, held, stall, part>>
        \/ ~term /\ Len(plan) > Depth \div 2 /\ term' = TRUE /\ Do("T") /\ UNCHANGED <<inp, outp, held, stall, part>>
        \/ ~stall /\ outp /\ stall' = TRUE /\ Do("s") /\ UNCHANGED <<inp, outp, term, held, part>>
        \/ stall /\ outp /\ stall' = FALSE /\ Do("u") /\ UNCHANGED <<inp, outp, term, held, part>>
        \/ (\E a \in {".", "?"} : Do(a)) /\ UNCHANGED <<inp, outp, term, held, stall, part>>
GNext == Len(plan) < Depth /\ Step
Emit == Len(plan) = Depth => PrintT("@@" \o ToJson([plan |-> plan]))
=============================================================================

------------------------------- MODULE Trace -------------------------------
(* Trace validation.  The trace file holds one recorded history per line;   *)
(* every history is one behaviour of this specification: the model state is *)
(* advanced by the meaning of each recorded call, and the recorded outcome  *)
(* must be one the specification allows.                                    *)
EXTENDS Exports, Imports, Relocs, Tls, LoadCfg, Bound, Values, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,      \* number of the history
          l,      \* events consumed
          env,    \* model state
          bad     \* disagreements found in the last event
vars == <<c, l, env, bad>>
View == <<c, l, bad>>   \* env is a function of the history and the position in it

Env0 == [img |-> EmptyMap, file |-> EmptyMap, det |-> EmptyMap, reb |-> EmptyMap, tree |-> EmptyMap, ver |-> Ver0, recs |-> EmptyMap]

Step(en, e) ==
    IF e.op = "abnormal" THEN Res(en, {"abnormal termination (" \o e.what \o ") in " \o e.during})
    ELSE IF e.op = "load" THEN LoadDbg(ImgStep(en, e), en, e)
    ELSE IF e.op \in ImgOpNames THEN ImgStep(en, e)
    ELSE IF e.op \in ExpOpNames THEN ExpStep(en, e)
    ELSE IF e.op \in ImpOpNames THEN ImpStep(en, e)
    ELSE IF e.op \in RelOpNames THEN RelStep(en, e)
    ELSE IF e.op \in TlsOpNames THEN TlsStep(en, e)
    ELSE IF e.op \in CfgOpNames THEN CfgStep(en, e)
    ELSE IF e.op \in BndOpNames THEN BndStep(en, e)
    ELSE IF e.op \in ResOpNames THEN ResStep(en, e)
    ELSE IF e.op \in IcoOpNames THEN IcoStep(en, e)
    ELSE IF e.op \in VerOpNames THEN VerStep(en, e)
    ELSE IF e.op \in TabOpNames THEN TabStep(en, e)
    ELSE IF e.op \in DbgOpNames THEN DbgStep(en, e)
    ELSE IF e.op \in ValOpNames THEN ValStep(en, e)
    ELSE Res(en, {"SPEC: unknown operation " \o e.op})

\* a repeated reading call must have the outcome it had before
Again(ev, k) ==
    LET e == ev[k] IN
    IF ~Has(e, "again") THEN {}
    ELSE LET o == ev[k - e.again] IN
         {"repeated call differs in " \o f : f \in {f \in DOMAIN e \cup DOMAIN o : f \notin {"again", "img", "keep"} /\ (f \notin DOMAIN o \/ f \notin DOMAIN e \/ o[f] # e[f])}}

Init == c \in 1..Len(T) /\ l = 0 /\ env = Env0 /\ bad = {}
Next == /\ bad = {}
        /\ l < Len(T[c].ev)
        /\ l' = l + 1
        /\ c' = c
        /\ LET r == Step(env, T[c].ev[l + 1]) IN env' = r.env /\ bad' = r.bad \cup Again(T[c].ev, l + 1)
Spec == Init /\ [][Next]_vars

Report == bad # {} => PrintT(<<"MISMATCH", T[c].id, l, T[c].ev[l].op, bad>>)
Done == (bad = {} /\ l = Len(T[c].ev)) => PrintT(<<"ACCEPTED", T[c].id>>)
=============================================================================

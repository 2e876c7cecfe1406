------------------------------- MODULE MC_Exp ------------------------------
(* Export directories: every list of a few functions (with duplicates) is   *)
(* rebuilt at several places; the requirements can be met, reading gives    *)
(* back what was written, also after the file has been written and loaded.  *)
EXTENDS DirWrite, Write, Json
CONSTANTS F, Offs, MaxF, Ords, Names, Kinds, Infos, Deep

VARIABLES img, hist, call, ph
vars == <<img, hist, call, ph>>

Data1 == [i \in 1..200 |-> 1 + i]
Data2 == [i \in 1..60 |-> 250 - i]
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 0, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET n == NewImage(F, 16, FALSE, 3)
            n2 == [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
NamesA == {<<>>, <<97>>, <<97, 98>>}
NamesB == {<<>>, <<97>>}
\* a function: plain, forwarded, without an address
Func(o, n, k) == [ord |-> o] @@ (IF n = <<>> THEN EmptyMap ELSE [name |-> n]) @@ (IF k = "fwd" THEN [fwd |-> <<120, 46, 121>>, rva |-> LE4(7)] ELSE IF k = "zero" THEN [rva |-> LE4(0)] ELSE [rva |-> LE4(16 + o)])
AllF == {Func(o, n, k) : o \in Ords, n \in Names, k \in Kinds}
InfoOf(k) == IF k = 1 THEN [name |-> <<100, 108, 108>>] ELSE [name |-> <<>>, base |-> LE4(9), ch |-> <<1, 2, 3, 4>>, ts |-> <<5, 6, 7, 8>>, maj |-> <<9, 1>>, min |-> <<2, 3>>]

Init == img = Img0 /\ hist = Start /\ call = [op |-> "none", funcs |-> <<>>] /\ ph = "list"
Grow == /\ ph = "list" /\ Len(call.funcs) < MaxF /\ \E f \in AllF : call' = [call EXCEPT !.funcs = Append(@, f)]
        /\ UNCHANGED <<img, hist, ph>>
Rebuild == /\ ph = "list" /\ \E s \in {0, 1}, o \in Offs, k \in Infos, st \in BOOLEAN :
              LET c == [op |-> "exp_rebuild", funcs |-> call.funcs, info |-> InfoOf(k), sec |-> s, off |-> o, strip |-> st]
                  P == ExpPlan(img, c)
              IN /\ call' = c /\ hist' = Append(hist, c)
                 /\ IF P.X = {} THEN img' = ExpWritten(img, c) /\ ph' = "written" ELSE img' = img /\ ph' = "refused"
Opts == [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE]
Reload == /\ ph = "written" /\ LET W == WriteFile(img, Opts) IN img' = LoadImage(W.out, 0, FALSE, 0)
          /\ hist' = hist \o <<[op |-> "rebuild"] @@ Opts, [op |-> "load", file |-> 0]>> /\ ph' = "loaded" /\ call' = call
Next == Grow \/ Rebuild \/ Reload
Spec == Init /\ [][Next]_vars

Env(im) == [img |-> 0 :> im]
Ev(im, c, E) == LET P == ExpPlan(im, c) IN c @@ [exc |-> "none", drva |-> P.rva, dsize |-> P.size, st |-> E]
Meets == [][ph' = "written" => ExpRebuildStep(Env(img), Ev(img, call', img')).bad = {}]_vars
\* exactly the bytes of the directory are written
Exact == [][ph' = "written" => Len(ExpBytes(ExpPlan(img, call'))) = ExpPlan(img, call').size]_vars
Reads == ph \in {"written", "loaded"} =>
         LET P == ExpPlan(Img0, call)  t == ExportTable(img, TRUE) IN
         /\ t.ok /\ [k \in 1..Len(t.funcs) |-> [t.funcs[k] EXCEPT !.rva = IF t.funcs[k].isf THEN <<>> ELSE @]] = P.want
         /\ [k \in DOMAIN P.info |-> t.info[k]] = P.info
         \* rebuilding what was read gives the same directory
         /\ P.want # <<>> => LET c2 == [op |-> "exp_rebuild", funcs |-> t.funcs, info |-> t.info, sec |-> call.sec, off |-> call.off, strip |-> call.strip] IN
               P.nf = Len(P.want) => (ExpPlan(img, c2).X = {} /\ ExpWritten(img, c2) = img)
Refused == ph = "refused" => LET fs == call.funcs IN
         \/ \E i, j \in 1..Len(fs) : i < j /\ (fs[i].ord = fs[j].ord \/ (FNamed(fs[i]) /\ FName(fs[i]) = FName(fs[j])))
         \/ call.sec = 0
\* where empty tables lie is of no interest, nor is which NUL an empty name is
Free(P) == {P.pos + x : x \in (IF P.info.name = <<>> THEN 12..15 ELSE {}) \cup (IF P.nf = 0 THEN 28..39 ELSE IF P.nn = 0 THEN 32..39 ELSE {})}
\* no other byte of the directory is free: another value in any of them does not meet the requirements
Pinned == [][(Deep # {} /\ ph' = "written") => LET P == ExpPlan(img, call') IN \A p \in (P.pos..(P.pos + P.size - 1)) \ Free(P) : p < Len(img'.secs[P.i].d) =>
             \A v \in {(img'.secs[P.i].d[p + 1] + x) % 256 : x \in Deep} :
                ExpRebuildStep(Env(img), Ev(img, call', [img' EXCEPT !.secs[P.i].d[p + 1] = v])).bad # {} \/ ~PrintT(<<"FREE", p - P.pos, v, call'>>)]_vars
Beh == (ph \in {"refused", "loaded"}) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

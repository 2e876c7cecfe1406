----------------------------- MODULE MC_Layout -----------------------------
(* The section-editing API as a state machine over Layout.  Checked         *)
(* exhaustively up to Depth calls; the calls of every behaviour are printed *)
(* as JSON and replayed on the real code.                                   *)
EXTENDS Layout, Json

CONSTANTS SA, FA, Soh, Depth, Rich   \* Rich: larger argument sets

VARIABLES L,      \* section table
          det,    \* a section that is not attached to the image
          last,   \* outcome of the last call: [exc, k, i]
          hist    \* calls made so far (hidden from the state graph)
vars == <<L, det, last, hist>>
View == <<L, det, last, Len(hist)>>

Raws == {<<>>, <<5>>, <<1>> \o Zeros(FA)} \cup (IF Rich THEN {<<0>>, [i \in 1..(FA + 3) |-> i % 7]} ELSE {})
VSs == {0, SA + 1} \cup (IF Rich THEN {1, 3 * SA} ELSE {})
Targets == {0} \cup (1..Len(L.secs))
Tg(i) == IF i = 0 THEN [det |-> 0] ELSE [sec |-> i - 1]

Init == /\ L = [sa |-> SA, fa |-> FA, soh |-> Soh, soi |-> Soh, nos |-> 0, secs |-> <<>>]
        /\ det = [va |-> 0, vs |-> 0, rs |-> 0, ptr |-> 0, d |-> <<9>>]
        /\ last = [exc |-> "none", k |-> "init", i |-> 0]
        /\ hist = <<>>

Do(call, i, r, d2) ==
    /\ L' = r.L
    /\ det' = d2
    /\ last' = [exc |-> r.exc, k |-> call.op, i |-> i]
    /\ hist' = Append(hist, call)

DoAt(call, i, r) == Do(call @@ Tg(i), i, r, IF i = 0 THEN r.s ELSE det)

AddNew == Len(L.secs) < 3 /\ \E raw \in Raws, vs \in VSs, auto \in BOOLEAN, va \in {0, 7} :
    Do([op |-> "addsec", raw |-> raw, vs |-> vs, auto |-> auto, va |-> va], 0,
       Add(L, [va |-> va, vs |-> vs, rs |-> 0, ptr |-> 0, d |-> raw], auto), det)
AddDet == Len(L.secs) < 3 /\ Do([op |-> "adddet", det |-> 0], 0, Add(L, det, TRUE), det)
Prepare == \E i \in Targets : LET p == PrepareSec(L, GetSec(L, i, det)) IN
    DoAt([op |-> "prepare"], i, [exc |-> p.exc, L |-> PutSec(L, i, p.s), s |-> p.s])
DoRecalc == \E i \in Targets, strip \in BOOLEAN : DoAt([op |-> "recalc", strip |-> strip], i, Recalc(L, i, det, strip))
SetVs == \E i \in Targets, vs \in {0, 1, 2 * SA + 1} : DoAt([op |-> "setvs", vs |-> vs], i, SetVirtualSize(L, i, det, vs))
DoExpand == \E i \in Targets, rel \in {0, 5, SA}, size \in {1, FA + 4}, kind \in {"raw", "virtual"} :
    DoAt([op |-> "expand", rel |-> rel, size |-> size, kind |-> kind], i, Expand(L, i, det, GetSec(L, i, det).va + rel, size, kind))
Realign == \E i \in 0..Len(L.secs) : LET r == RealignSection(L, i + 1) IN Do([op |-> "realign_sec", idx |-> i], i, r, det)
RealignA == Do([op |-> "realign_all"], 0, [exc |-> "none", L |-> RealignAll(L)], det)
\* the user edits raw contents in place, inside the section's address space
Edit == \E i \in Targets, n \in {0, 3, FA + 1} :
    LET s == GetSec(L, i, det)
        d == IF n <= Len(s.d) THEN SubSeq(s.d, 1, n) ELSE s.d \o [k \in 1..(n - Len(s.d)) |-> 7]
    IN /\ i = 0 \/ n <= AVS(L, s)
       /\ DoAt([op |-> "sec_resize", n |-> n, fill |-> 7], i, [exc |-> "none", L |-> PutSec(L, i, [s EXCEPT !.d = d]), s |-> [s EXCEPT !.d = d]])
BadAlign == \E fa \in {FA, 3 * 512, 4 * SA} : LET r == SetFileAlignment(L, fa) IN r.exc # "none" /\ Do([op |-> "setfa", fa |-> fa], 0, r, det)
UpdSize == Do([op |-> "upd_size"], 0, [exc |-> "none", L |-> UpdateSize(L)], det)

Next == Len(hist) < Depth /\ (AddNew \/ AddDet \/ Prepare \/ DoRecalc \/ SetVs \/ DoExpand \/ Realign \/ RealignA \/ Edit \/ BadAlign \/ UpdSize)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Inv == WellFormed(L)
\* after adding, preparing or recalculating a section, the section that took part has a
\* raw size that covers its contents and fits its address space
Cover == [][(last'.exc = "none" /\ last'.k \in {"addsec", "adddet", "prepare", "recalc"}) =>
              LET s == IF last'.k \in {"addsec", "adddet"} THEN LastSec(L') ELSE GetSec(L', last'.i, det')
              IN s.rs >= Len(s.d) /\ s.rs <= AlignUp(AVS(L', s), L'.fa) /\ Len(s.d) <= AVS(L', s) /\ s.rs + s.vs > 0]_vars
\* a refused call changes nothing, except that preparing a section without any size records its raw size 0
Refused == [][last'.exc # "none" => (L' = L \/ (last'.k \in {"prepare", "recalc"} /\ \A i \in 1..Len(L.secs) : L'.secs[i] = [L.secs[i] EXCEPT !.rs = L'.secs[i].rs]))]_vars
\* only the last section is ever moved or resized in memory
LastOnly == [][\A i \in 1..(Len(L.secs) - 1) : L'.secs[i].va = L.secs[i].va /\ AVS(L', L'.secs[i]) = AVS(L, L.secs[i])]_vars
\* contents survive except for zero bytes at the end
Contents == [][last'.k # "sec_resize" => \A i \in 1..Len(L.secs) : SameModTrailingZeros(L'.secs[i].d, L.secs[i].d)]_vars
Beh == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson([sa |-> SA, fa |-> FA, soh |-> Soh, calls |-> hist])>>)
=============================================================================

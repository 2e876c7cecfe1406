------------------------------ MODULE MC_Rebase ------------------------------
(* Moving an image: every short list of relocation entries of every type,   *)
(* at every place of a small image (headers, both sections, their edges and *)
(* the addresses around them), to several bases and back.                   *)
EXTENDS Relocs, Json
CONSTANTS F, Types, MaxItems, Moves

VARIABLES img, from, items, tabs, n, hist, ph
vars == <<img, from, items, tabs, n, hist, ph>>

Data1 == [i \in 1..12 |-> IF i % 3 = 0 THEN 255 ELSE 250 + (i % 6)]
Data2 == [i \in 1..7 |-> 128 + i]
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 20, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET q == NewImage(F, 16, FALSE, 3)
            n2 == [q EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
Va(i) == SecVa(Img0, i)
\* places: the start, the borders of words, the last bytes and the first bytes that are not there
Spots == {Va(1), Va(1) + 1, Va(1) + 4, Va(1) + 8, Va(1) + 10, Va(1) + 12, Va(2) - 1, Va(2), Va(2) + 3, Va(2) + 5, Va(2) + 16}
\* a block that starts where a caller may let it start; the last one wraps around
Blocks(a) == {[rva |-> LE4(0), it |-> a], [rva |-> LE4(a), it |-> 0]}
Wrap == [rva |-> <<255, 255, 255, 255>>, it |-> 1]
Tab(x, ty) == [rva |-> x.rva, items |-> <<<<x.it, ty>>>>]
Init == img = Img0 /\ from = Img0 /\ items = <<>> /\ tabs = <<>> /\ n = 0 /\ hist = Start /\ ph = "list"
Grow == /\ ph = "list" /\ Len(tabs) < MaxItems
        /\ \E ty \in Types, a \in Spots : \E x \in Blocks(a) \cup (IF a = Va(1) THEN {Wrap} ELSE {}) : tabs' = Append(tabs, Tab(x, ty))
        /\ items' = SelectSeq(RelFlat(tabs'), LAMBDA q : q.ty # 0) /\ UNCHANGED <<img, from, n, hist, ph>>
\* in 64-bit images the high half of the base changes too; the low 16 bits of a base are zero
Bases == IF F = 32 THEN {<<0, 0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 255, 255, 0, 0, 0, 0>>, <<0, 0, 65, 127, 0, 0, 0, 0>>}
         ELSE {<<0, 0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 255, 255, 255, 127, 0, 0>>, <<0, 0, 64, 0, 1, 0, 0, 0>>}
Can == \A k \in 1..Len(items) : RelTarget(img, items[k]).ok
Move == /\ ph \in {"list", "moved"} /\ tabs # <<>> /\ n < Moves /\ \E b \in Bases \cup {WExt(ImgBase(from), 8)} :
           /\ (n = 0 => b # WExt(ImgBase(from), 8)) /\ (n > 0 => b # WExt(ImgBase(img), 8))
           /\ hist' = Append(hist, [op |-> "rebase", tables |-> tabs, base |-> b]) /\ n' = n + 1
           /\ IF Can THEN img' = Rebased(img, items, b) /\ ph' = "moved" ELSE img' = img /\ ph' = "refused"
        /\ UNCHANGED <<from, items, tabs>>
Next == Grow \/ Move
Spec == Init /\ [][Next]_vars

BytesOf(x) == LET t == RelTarget(from, x).rva IN t..(t + RelWidth(x.ty) - 1)
Touched == UNION {BytesOf(items[k]) : k \in 1..Len(items)}
Alone(k) == \A j \in 1..Len(items) : j # k => BytesOf(items[k]) \cap BytesOf(items[j]) = {}
\* one move after another is the same as the last one, and there and back again
Apart == \A k \in 1..Len(items) : Alone(k)
Direct == (ph = "moved" /\ Apart) => img = Rebased(from, items, WExt(ImgBase(img), 8))
Back == (ph = "moved" /\ Apart /\ ImgBase(img) = ImgBase(from)) => img = from
\* nothing but the base and the targets changes
Frame == ph = "moved" =>
    /\ img.dos = from.dos /\ img.hdr = from.hdr /\ Len(img.secs) = Len(from.secs)
    /\ Patch(img.nt, oBase(F), ImgBase(from)) = from.nt
    /\ \A i \in 1..2 : img.secs[i].h = from.secs[i].h /\ Len(img.secs[i].d) = Len(from.secs[i].d) /\ \A p \in 1..Len(img.secs[i].d) : (Va(i) + p - 1) \in Touched \/ img.secs[i].d[p] = from.secs[i].d[p]
\* an address that points into the image points to the same place of the image
Word(im, a, w) == Rd(im, a, w, "raw", TRUE).b
Points == ph = "moved" => \A k \in 1..Len(items) : LET x == items[k]  t == RelTarget(from, x).rva IN
    (Alone(k) /\ x.ty \in {3, 10} /\ RelWidth(x.ty) <= WordN(F)) =>
        WSub(Word(img, t, RelWidth(x.ty)), SubSeq(WExt(ImgBase(img), 8), 1, RelWidth(x.ty))) = WSub(Word(from, t, RelWidth(x.ty)), SubSeq(WExt(ImgBase(from), 8), 1, RelWidth(x.ty)))
\* the 16-bit halves of an address
Halves == ph = "moved" => \A k \in 1..Len(items) : LET x == items[k]  t == RelTarget(from, x).rva IN
    (Alone(k) /\ x.ty \in {1, 2}) =>
        WSub(Word(img, t, 2), SubSeq(WExt(ImgBase(img), 8), IF x.ty = 1 THEN 3 ELSE 1, IF x.ty = 1 THEN 4 ELSE 2)) = WSub(Word(from, t, 2), SubSeq(WExt(ImgBase(from), 8), IF x.ty = 1 THEN 3 ELSE 1, IF x.ty = 1 THEN 4 ELSE 2))
Beh == (ph = "refused" \/ n = Moves) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

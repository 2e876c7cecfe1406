------------------------------ MODULE MC_Load ------------------------------
(* The loader over all files that differ from a well-formed one in at most  *)
(* Depth header fields (or in where the file ends).  Whatever the loader    *)
(* must accept is a well-formed image; every file is given to the real code.*)
EXTENDS Image, Json
CONSTANTS F, Depth, Mems, Wants   \* F: format of the well-formed file

VARIABLES f, mods, mem, want
vars == <<f, mods, mem, want>>

Sooh == NtBase(F) - 24 + 16
Tab == 64 + 24 + Sooh
Soh == AlignUp(Tab + 80, 16)
Nt0 == LET n == NewImage(F, 16, FALSE, 3).nt
           p(b, o, w) == Patch(b, o, w)
       IN SubSeq(p(p(p(p(p(p(n, oFa, LE4(16)), oSoh, LE4(Soh)), oSoi, LE4(Soh + 48)), oNos, LE2(2)), oNrva(F), LE4(2)), oSooh, LE2(Sooh)), 1, NtBase(F) + 16)
H(va, vs, rs, ptr) == Zeros(8) \o LE4(vs) \o LE4(va) \o LE4(rs) \o LE4(ptr) \o Zeros(12) \o <<32, 0, 0, 96>>
Base == LET hd == Patch(Patch(Zeros(64), 0, <<77, 90>>), 60, LE4(64)) \o Nt0 \o H(Soh, 20, 16, Soh) \o H(Soh + 32, 16, 16, Soh + 16)
        IN Resize(hd, Soh) \o [k \in 1..48 |-> k] \o <<99>>

W4s == {0, 1, 16, 32, 33}
Huge == {<<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<240, 255, 255, 255>>, <<255, 255, 255, 255>>}
Around(x) == {LE4(y) : y \in {z \in {x - 1, x + 1, x - 16, x + 16, x + 15, 2 * x} \cup W4s : z >= 0}} \cup Huge
\* [offset of the field in the file, values]
Fields == <<
    <<0, {<<0, 0>>, <<90, 77>>}>>,
    <<60, {LE4(y) : y \in {0, 63, 65, 60, 68, Len(Base) - 1, Len(Base) - 119, Len(Base) - 120, Len(Base), Len(Base) + 1}} \cup Huge>>,
    <<64, {<<80, 69, 0, 1>>, <<0, 0, 0, 0>>}>>,
    <<64 + oNos, {LE2(y) : y \in {0, 1, 3, 95, 96, 97, 65535}}>>,
    <<64 + oSooh, {LE2(y) : y \in {0, Sooh - 40, Sooh + 40, Sooh + 1, 65535, Len(Base) - 88, Len(Base) - 87}}>>,
    <<64 + oMagic, {<<11, 1>>, <<11, 2>>, <<7, 1>>}>>,
    <<64 + oSa, {LE4(y) : y \in {0, 1, 8, 15, 17, 32, 512, 4096, 12288}} \cup Huge>>,
    <<64 + oFa, {LE4(y) : y \in {0, 1, 8, 15, 17, 32, 512, 4096}} \cup Huge>>,
    <<64 + oSoi, Around(Soh + 48)>>,
    <<64 + oSoh, Around(Soh)>>,
    <<64 + oNrva(F), {LE4(y) : y \in {0, 1, 3, 16, 17, 4096}} \cup Huge>>,
    <<Tab + 8, Around(20)>>, <<Tab + 12, Around(Soh)>>, <<Tab + 16, Around(16)>>, <<Tab + 20, Around(Soh)>>,
    <<Tab + 48, Around(16)>>, <<Tab + 52, Around(Soh + 32)>>, <<Tab + 56, Around(16)>>, <<Tab + 60, Around(Soh + 16)>> >>
Cuts == {1, 63, 64, 100, 64 + 119, 64 + NtBase(F) - 1, 64 + NtBase(F) + 15, 64 + NtBase(F) + 16, Tab + 39, Tab + 40, Tab + 79, Tab + 80, Soh - 1, Soh, Soh + 15, Soh + 16, Soh + 31, Soh + 32, Soh + 47, Soh + 48}
NF == Len(Fields)

Init == f = Base /\ mods = <<>> /\ mem \in Mems /\ want \in Wants
LastF == IF mods = <<>> THEN 0 ELSE mods[Len(mods)].k
Next == /\ Len(mods) < Depth /\ UNCHANGED <<mem, want>>
        /\ \/ \E k \in (LastF + 1)..NF : \E w \in Fields[k][2] : /\ w # Raw(f, Fields[k][1], Len(w))
                                                                 /\ f' = Patch(f, Fields[k][1], w) /\ mods' = Append(mods, [k |-> k, off |-> Fields[k][1], b |-> w])
           \/ LastF <= NF /\ \E n \in Cuts : f' = Take(f, n) /\ mods' = Append(mods, [k |-> NF + 1, cut |-> n])
Spec == Init /\ [][Next]_vars

V == Violations(f, 0, mem, want)
I == LoadImage(f, 0, mem, want)
L == Lay(I)
\* exact addresses (fields go up to 2^32 - 1)
Va(i) == Raw(I.secs[i].h, 12, 4)
Sa == Raw(I.nt, oSa, 4)
Small == \A i \in 1..Len(L.secs) : L.secs[i].va < BIG \div 2 /\ L.secs[i].vs < BIG \div 2 /\ L.soi < BIG \div 2
\* the well-formed file is accepted
BaseOk == (mods = <<>> /\ want \in {0, F}) => V = {}
\* what is accepted is a well-formed image
Accepted == (V = {}) =>
    /\ I.fmt \in {32, 64} /\ Len(I.nt) = NtSize(I.fmt) /\ ImgNrva(I) <= 16
    /\ IsPow2W(LE4(L.sa)) /\ IsPow2W(LE4(L.fa)) /\ (L.fa = L.sa \/ (L.fa >= 512 /\ L.fa <= L.sa))
    /\ CountOk(L)
    /\ \A i \in 1..(Len(L.secs) - 1) : Va(i + 1) = WSecEnd(I.secs[i].h, Sa) /\ WLt(Va(i), Va(i + 1))
    /\ (L.secs # <<>> => WLe(Raw(I.nt, oSoh, 4), Va(1)))
    \* (the saturated numbers agree wherever nothing is saturated)
    /\ (Small => Contiguous(L) /\ Increasing(L))
    /\ Len(I.hdr) <= Len(f) /\ Len(I.hdr) <= L.soh
    /\ \A i \in 1..Len(L.secs) : LET s == L.secs[i] IN
          /\ s.vs + s.rs > 0
          /\ Len(s.d) = s.rs /\ s.rs <= AlignUp(AVS(L, s), L.fa)
          /\ ~WCarry(Va(i), WAvs(I.secs[i].h, Sa))
          /\ WLe(WSecEnd(I.secs[i].h, Sa), WAlignUp(Raw(I.nt, oSoi, 4), Sa))
          /\ (Small => SecEnd(L, s) <= AlignUp(L.soi, L.sa))
\* an address belongs to at most one section of an accepted image
OneSection == (V = {} /\ Small /\ Len(L.secs) >= 2) => \A x \in {L.secs[1].va, L.secs[2].va, L.secs[2].va - 1, SecEnd(L, L.secs[1]), SecEnd(L, L.secs[2])} : Cardinality(RvaSections(L, x)) <= 1
\* asking for the format the file has is the same as letting the loader find out
SameFormat == (want = 0 /\ V = {}) => (Violations(f, 0, mem, Fmt(f, U32(f, 60))) = {} /\ Violations(f, 0, mem, 96 - Fmt(f, U32(f, 60))) # {})
Beh == /\ mods = <<>> => PrintT(<<"BEH", ToJson([base |-> f])>>)
       /\ PrintT(<<"BEH", ToJson([mods |-> mods, mem |-> mem, want |-> want, ok |-> V = {}])>>)
=============================================================================

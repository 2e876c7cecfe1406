------------------------------ MODULE MC_Addr ------------------------------
(* The address space of an image: every section table of a bounded size is  *)
(* an initial state, and every address below Top is looked at.  Each table  *)
(* becomes a file on which every conversion and read of the real code is    *)
(* made at every address.                                                   *)
EXTENDS Layout, Json
CONSTANTS Al,        \* section and file alignment
          NSec, VSs, RSs, Ptrs, Sohs, Top
VARIABLES L
vars == L

\* the raw size a loader keeps: the virtual size where the file would give more than the address space of the section
Clip(s) == LET l == [sa |-> Al, fa |-> Al] IN IF s.rs # 0 /\ AlignUp(s.rs, Al) > AVS(l, s) THEN s.vs ELSE s.rs
Tuples == {s \in [vs : VSs, rs : RSs, ptr : Ptrs] : s.vs + s.rs > 0}
Place(q, first) ==
    LET l == [sa |-> Al, fa |-> Al]
        f(acc, t) == LET s == [va |-> IF acc = <<>> THEN first ELSE SecEnd(l, acc[Len(acc)]), vs |-> t.vs, rs |-> t.rs, ptr |-> t.ptr, d |-> <<>>] IN Append(acc, [s EXCEPT !.rs = Clip(s)])
    IN FoldLeft(f, <<>>, q)
Init == \E n \in 1..NSec, soh \in Sohs, gap \in {0, Al} : \E q \in [1..n -> Tuples] :
        LET secs == Place([k \in 1..n |-> q[k]], AlignUp(soh, Al) + gap) IN
        L = [sa |-> Al, fa |-> Al, soh |-> soh, soi |-> SecEnd([sa |-> Al, fa |-> Al], secs[n]), nos |-> n, secs |-> secs]
Next == UNCHANGED L
Spec == Init /\ [][Next]_vars

Addrs == 0..Top
End == SecEnd(L, LastSec(L))
\* an address belongs to one section at most, and to none exactly in the headers, in the gap behind them and past the end
Unique == \A x \in Addrs : LET S == RvaSections(L, x) IN Cardinality(S) <= 1 /\ (S = {} <=> (x < L.secs[1].va \/ x >= End))
\* the raw parts of the sections do not overlap each other or the headers
Apart == /\ \A i \in 1..Len(L.secs) : L.secs[i].ptr >= L.soh
         /\ \A i, j \in 1..Len(L.secs) : i # j /\ L.secs[i].rs > 0 /\ L.secs[j].rs > 0 => L.secs[i].ptr + L.secs[i].rs <= L.secs[j].ptr \/ L.secs[j].ptr + L.secs[j].rs <= L.secs[i].ptr
\* RVA -> offset -> RVA is the identity on headers and raw-backed bytes
Backed(x) == x < L.soh \/ \E i \in RvaSections(L, x) : x - L.secs[i].va < L.secs[i].rs
RvaBack == \A x \in Addrs : (Apart /\ Backed(x)) => OffsetToRva(L, RvaToOffset(L, x)) = x
OffBack == \A x \in Addrs : (Apart /\ OffsetToRva(L, x) # -1) => RvaToOffset(L, OffsetToRva(L, x)) = x
\* a section without raw data is never found by a file offset; one with raw data is found by each of its offsets unless another one comes first
ByOffset == \A x \in Addrs : OffSections(L, x) = {i \in 1..Len(L.secs) : L.secs[i].rs > 0 /\ x - L.secs[i].ptr \in 0..(L.secs[i].rs - 1)}
RawInside == \A i \in 1..Len(L.secs) : L.secs[i].rs <= AVS(L, L.secs[i])
Beh == PrintT(<<"BEH", ToJson([al |-> Al, soh |-> L.soh, secs |-> [i \in 1..Len(L.secs) |-> [va |-> L.secs[i].va, vs |-> L.secs[i].vs, rs |-> L.secs[i].rs, ptr |-> L.secs[i].ptr]]])>>)
=============================================================================

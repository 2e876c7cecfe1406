------------------------------- MODULE Layout ------------------------------
(* The section table of an image as an abstract data type.                  *)
(*   L == [sa, fa, soh, soi, nos, secs]     alignments, SizeOfHeaders,      *)
(*        SizeOfImage, NumberOfSections, sequence of sections               *)
(*   s == [va, vs, rs, ptr, d]              address, virtual size, raw size *)
(*        field, file pointer, raw contents                                 *)
(* Every operation returns [exc, L] or [exc, L, s]; exc = "none" on success.*)
EXTENDS Bytes

MaxSections == 96
MinFileAlignment == 512

AVS(L, s) == IF s.rs # 0 /\ s.vs = 0 THEN AlignUp(s.rs, L.sa) ELSE AlignUp(s.vs, L.sa)
ARS(L, s) == AlignUp(s.rs, L.fa)
SecEnd(L, s) == s.va + AVS(L, s)
LastSec(L) == L.secs[Len(L.secs)]

\* --- well-formedness of a section table -----------------------------------
Contiguous(L) == \A i \in 1..(Len(L.secs) - 1) : L.secs[i + 1].va = SecEnd(L, L.secs[i])
VAsAligned(L) == \A i \in 1..Len(L.secs) : Aligned(L.secs[i].va, L.sa)
Increasing(L) == \A i \in 1..(Len(L.secs) - 1) : L.secs[i].va < L.secs[i + 1].va
CountOk(L) == L.nos = Len(L.secs) /\ Len(L.secs) <= MaxSections
RawFits(L) == \A i \in 1..Len(L.secs) : /\ Len(L.secs[i].d) <= AVS(L, L.secs[i])
                                          /\ L.secs[i].rs <= AlignUp(AVS(L, L.secs[i]), L.fa)
WellFormed(L) == Contiguous(L) /\ VAsAligned(L) /\ Increasing(L) /\ CountOk(L)

\* --- operations -----------------------------------------------------------
\* recompute the raw size from the contents and make the virtual size cover it
PrepareSec(L, s) ==
    LET rs == AlignUp(Len(s.d), L.fa) IN
    IF rs = 0 /\ s.vs = 0 THEN [exc |-> "zero_section_sizes", s |-> [s EXCEPT !.rs = 0]]
    ELSE [exc |-> "none",
          s |-> [s EXCEPT !.rs = rs, !.vs = IF s.vs = 0 THEN rs ELSE Max2(rs, AlignUp(s.vs, L.sa))]]

ImageEnd(L) == IF L.secs = <<>> THEN L.soh ELSE SecEnd(L, LastSec(L))
UpdateSize(L) == [L EXCEPT !.soi = ImageEnd(L)]

Add(L, s0, auto) ==
    IF Len(L.secs) >= MaxSections THEN [exc |-> "no_more_sections_can_be_added", L |-> L]
    ELSE LET p == PrepareSec(L, s0) IN
    IF p.exc # "none" THEN [exc |-> p.exc, L |-> L]
    ELSE LET va == IF L.secs # <<>> THEN AlignUp(SecEnd(L, LastSec(L)), L.sa)
                   ELSE IF s0.va = 0 THEN AlignUp(L.soh, L.sa) ELSE AlignUp(s0.va, L.sa)
             s == [p.s EXCEPT !.va = va]
             old == IF auto /\ L.secs # <<>>
                    THEN [L.secs EXCEPT ![Len(L.secs)].rs = AlignUp(Len(LastSec(L).d), L.fa)] ELSE L.secs
         IN [exc |-> "none",
             L |-> [L EXCEPT !.secs = Append(old, s), !.nos = Len(L.secs) + 1, !.soi = L.soi + AVS(L, s)]]

\* i = 0 stands for a section that is not attached to the image
Resizable(L, i) == L.secs # <<>> /\ (i = 0 \/ i = Len(L.secs))
PutSec(L, i, s) == IF i = 0 THEN L ELSE [L EXCEPT !.secs[i] = s]
GetSec(L, i, det) == IF i = 0 THEN det ELSE L.secs[i]

SetVirtualSize(L, i, det, vs) ==
    LET s == GetSec(L, i, det)
        E == [exc |-> "error_changing_section_virtual_size", L |-> L, s |-> s]
    IN IF ~Resizable(L, i) THEN E
       ELSE IF vs = 0 /\ s.d = <<>> THEN E
       ELSE LET s2 == [s EXCEPT !.vs = IF vs = 0 THEN s.rs ELSE vs]
            IN [exc |-> "none", L |-> UpdateSize(PutSec(L, i, s2)), s |-> s2]

StripData(d) == IF d = <<>> THEN d ELSE SubSeq(d, 1, Max2(1, TrimLen(d)))

Recalc(L, i, det, strip) ==
    LET s == GetSec(L, i, det)
        p == PrepareSec(L, s)
    IN IF p.exc # "none" THEN [exc |-> p.exc, L |-> PutSec(L, i, p.s), s |-> p.s]
       ELSE LET s2 == IF strip /\ L.secs # <<>> /\ i # Len(L.secs)
                      THEN LET d == StripData(p.s.d) IN [p.s EXCEPT !.d = d, !.rs = Len(d)]
                      ELSE p.s
            IN [exc |-> "none", L |-> PutSec(L, i, s2), s |-> s2]

\* bytes of the view from rva to its end; -1 if the rva is outside the section
Remaining(L, s, rva, view) ==
    IF rva < s.va \/ rva >= SecEnd(L, s) THEN -1
    ELSE Max2(0, (IF view = "raw" THEN Len(s.d) ELSE AVS(L, s)) - (rva - s.va))

Expand(L, i, det, rva, size, kind) ==
    LET s == GetSec(L, i, det) IN
    IF ~Resizable(L, i) THEN [exc |-> "error_expanding_section", L |-> L, s |-> s, ret |-> FALSE]
    ELSE LET rem == Remaining(L, s, rva, kind) IN
    IF rem = -1 THEN [exc |-> "rva_not_exists", L |-> L, s |-> s, ret |-> FALSE]
    ELSE IF rem >= size THEN [exc |-> "none", L |-> L, s |-> s, ret |-> FALSE]
    ELSE LET r == IF kind = "raw"
                  THEN LET s1 == [s EXCEPT !.d = Resize(s.d, rva - s.va + size)]
                       IN Recalc(PutSec(L, i, s1), i, s1, FALSE)
                  ELSE SetVirtualSize(L, i, s, rva - s.va + size)
         IN [exc |-> r.exc, L |-> r.L, s |-> r.s, ret |-> TRUE]

RealignSection(L, i) ==   \* 1-based
    IF i > Len(L.secs) THEN [exc |-> "section_not_found", L |-> L]
    ELSE LET s == L.secs[i] IN
         IF i = Len(L.secs)
         THEN LET d == Trim(s.d) IN [exc |-> "none", L |-> [L EXCEPT !.secs[i] = [s EXCEPT !.d = d, !.rs = Len(d)]]]
         ELSE LET n == ARS(L, s) IN [exc |-> "none", L |-> [L EXCEPT !.secs[i] = [s EXCEPT !.d = Resize(s.d, n), !.rs = n]]]

RealignAll(L) == [L EXCEPT !.secs = [i \in 1..Len(L.secs) |-> RealignSection(L, i).L.secs[i]]]

Pow2(x) == x \in {2 ^ k : k \in 0..29}
SetFileAlignment(L, fa) ==
    IF fa < MinFileAlignment \/ ~Pow2(fa) \/ fa > L.sa THEN [exc |-> "incorrect_file_alignment", L |-> L]
    ELSE [exc |-> "none", L |-> [L EXCEPT !.fa = fa]]
RealignFile(L, fa) ==
    LET r == SetFileAlignment(L, fa) IN IF r.exc # "none" THEN r ELSE [exc |-> "none", L |-> RealignAll(r.L)]

\* --- address lookups --------------------------------------------------------
RvaSections(L, rva) == {i \in 1..Len(L.secs) : rva >= L.secs[i].va /\ rva < SecEnd(L, L.secs[i])}
OffSections(L, off) == {i \in 1..Len(L.secs) : off >= L.secs[i].ptr /\ off < L.secs[i].ptr + L.secs[i].rs}
RvaToOffset(L, rva) ==   \* -1: no section
    IF rva < L.soh THEN rva
    ELSE IF RvaSections(L, rva) = {} THEN -1
    ELSE LET s == L.secs[SetMin(RvaSections(L, rva))] IN s.ptr + (rva - s.va)
OffsetToRva(L, off) ==
    IF off < L.soh THEN off
    ELSE IF OffSections(L, off) = {} THEN -1
    ELSE LET s == L.secs[SetMin(OffSections(L, off))] IN s.va + (off - s.ptr)
=============================================================================

------------------------------- MODULE Image -------------------------------
(* Concrete image state, its abstraction to Layout, the loader, and the     *)
(* meaning of every image-level operation.                                  *)
(*   img == [fmt, dos, stub, hdr, nt, ovl, secs, dbg]                       *)
(*   fmt 32|64; dos, stub, hdr, nt byte sequences; secs sequence of         *)
(*   [h: 40 header bytes, d: raw contents]; dbg recorded debug data         *)
EXTENDS Layout

\* --- NT header layout -------------------------------------------------------
NtBase(fmt) == IF fmt = 32 THEN 120 ELSE 136        \* size without directories
NtSize(fmt) == NtBase(fmt) + 128
oNos == 6   oTs == 8   oSooh == 20   oCh == 22   oMagic == 24   oEp == 40   oBoc == 44
oSa == 56   oFa == 60   oOsMaj == 64   oOsMin == 66   oSsMaj == 72   oSsMin == 74
oSoi == 80   oSoh == 84   oSum == 88   oSubsys == 92   oDch == 94
oBase(fmt) == IF fmt = 32 THEN 52 ELSE 48
WordN(fmt) == IF fmt = 32 THEN 4 ELSE 8
oSr(fmt) == 96
oSc(fmt) == 96 + WordN(fmt)
oHr(fmt) == 96 + 2 * WordN(fmt)
oHc(fmt) == 96 + 3 * WordN(fmt)
oNrva(fmt) == NtBase(fmt) - 4
oDir(fmt, id) == NtBase(fmt) + 8 * id

ImgNrva(img) == U32(img.nt, oNrva(img.fmt))
ImgBase(img) == Raw(img.nt, oBase(img.fmt), WordN(img.fmt))
DirRva(img, id) == U32(img.nt, oDir(img.fmt, id))
DirSize(img, id) == U32(img.nt, oDir(img.fmt, id) + 4)
DirRvaW(img, id) == Raw(img.nt, oDir(img.fmt, id), 4)
DirSizeW(img, id) == Raw(img.nt, oDir(img.fmt, id) + 4, 4)
DirExists(img, id) == id < ImgNrva(img) /\ id < 16 /\ ~WIsZero(DirRvaW(img, id))

\* --- abstraction to Layout ----------------------------------------------------
Sec(x) == [vs |-> U32(x.h, 8), va |-> U32(x.h, 12), rs |-> U32(x.h, 16), ptr |-> U32(x.h, 20), d |-> x.d]
Lay(img) == [sa |-> U32(img.nt, oSa), fa |-> U32(img.nt, oFa), soh |-> U32(img.nt, oSoh), soi |-> U32(img.nt, oSoi),
             nos |-> U16(img.nt, oNos), secs |-> [i \in 1..Len(img.secs) |-> Sec(img.secs[i])]]
\* write an abstract section back (only fields that differ are touched)
PutW(h, o, old, new) == IF old = new THEN h ELSE Patch(h, o, LE4(new))
UnSec(x, s) == LET o == Sec(x)
                   h1 == PutW(x.h, 8, o.vs, s.vs)
                   h2 == PutW(h1, 12, o.va, s.va)
                   h3 == PutW(h2, 16, o.rs, s.rs)
                   h4 == PutW(h3, 20, o.ptr, s.ptr)
               IN [h |-> h4, d |-> s.d]
NewSecRaw(h, d) == [h |-> h, d |-> d]
\* apply a layout L2 to img; template(i) gives the concrete section a new one starts from
UnLay(img, L2, newsec) ==
    LET L == Lay(img)
        n1 == PutW(img.nt, oFa, L.fa, L2.fa)
        n2 == PutW(n1, oSoi, L.soi, L2.soi)
        n3 == IF L.nos = L2.nos THEN n2 ELSE Patch(n2, oNos, LE2(L2.nos))
    IN [img EXCEPT !.nt = n3,
                   !.secs = [i \in 1..Len(L2.secs) |-> UnSec(IF i <= Len(img.secs) THEN img.secs[i] ELSE newsec, L2.secs[i])]]

\* --- creating an empty image ---------------------------------------------------
NewImage(fmt, sa, dll, subsys) ==
    LET n0 == Zeros(NtSize(fmt))
        p(n, o, w) == Patch(n, o, w)
        ch == 2 + 1 + (IF fmt = 32 THEN 256 ELSE 0) + (IF dll THEN 8192 ELSE 0)
        n1 == p(p(p(n0, 0, <<80, 69, 0, 0>>), 4, LE2(332)), oSooh, LE2(NtSize(fmt) - 24))
        n2 == p(p(n1, oMagic, IF fmt = 32 THEN <<11, 1>> ELSE <<11, 2>>), oBase(fmt), LE4(4194304))
        n3 == p(p(p(n2, oSa, LE4(sa)), oFa, LE4(512)), oSoh, LE4(1024))
        n4 == p(p(p(n3, oSubsys, LE2(subsys)), oSr(fmt), LE4(1048576)), oSc(fmt), LE4(4096))
        n5 == p(p(p(n4, oHr(fmt), LE4(1048576)), oHc(fmt), LE4(4096)), oNrva(fmt), LE4(16))
        n6 == p(p(n5, oCh, LE2(ch)), oOsMaj, <<5, 0, 1, 0>>)
        n7 == p(n6, oSsMaj, <<5, 0, 1, 0>>)
        d0 == p(p(Zeros(64), 0, <<77, 90, 144, 0, 3, 0>>), 8, <<4, 0>>)
        d1 == p(p(p(d0, 12, <<255, 255>>), 16, <<184, 0>>), 24, <<64, 0>>)
    IN [fmt |-> fmt, dos |-> d1, stub |-> <<>>, hdr |-> <<>>, nt |-> n7, ovl |-> FALSE, secs |-> <<>>, dbg |-> <<>>]

----------------------------------------------------------------------------
(* Views of the address space.                                              *)
\* all bytes of a view, as a sequence: raw contents, or zero-extended to the aligned virtual size
ViewLen(L, s, view) == IF view = "raw" THEN Len(s.d) ELSE Max2(Len(s.d), AVS(L, s))
ByteAt(s, off) == IF off < Len(s.d) THEN s.d[off + 1] ELSE 0
ViewBytes(s, off, n) == [k \in 1..n |-> ByteAt(s, off + k - 1)]

----------------------------------------------------------------------------
(* The loader.  Violations(f, pos, mem, want) is the set of ids of loader   *)
(* conditions that the byte stream f really violates (pos: stream position, *)
(* want: 0 for auto-detection, or the required format).  The stream must be *)
(* accepted iff the set is empty; any id in the set is a truthful refusal.  *)
Fmt(f, lf) == IF U16(f, lf + oMagic) = 523 THEN 64 ELSE 32

\* want = -1: only the type of the image is asked for
DosPart(f, pos, want) ==
    IF pos + 64 > Len(f) THEN {"bad_dos_header"}
    ELSE IF U16(f, pos) # 23117 THEN {"bad_dos_header"}
    ELSE LET lf == U32(f, pos + 60) IN
         (IF U8(f, pos + 60) % 4 # 0 THEN {"bad_dos_header"} ELSE {})
         \cup (IF lf > Len(f) THEN {"image_nt_headers_not_found", "error_reading_image_nt_headers"}
               ELSE IF lf + 120 > Len(f) THEN {"error_reading_image_nt_headers"}
               ELSE (IF Raw(f, lf, 4) # <<80, 69, 0, 0>> THEN {"pe_signature_incorrect"} ELSE {})
                    \cup (IF want <= 0 /\ U16(f, lf + oMagic) \notin {267, 523} THEN {"pe_signature_incorrect"} ELSE {})
                    \cup (IF want > 0 /\ U16(f, lf + oMagic) # (IF want = 32 THEN 267 ELSE 523) THEN {"pe_signature_incorrect"} ELSE {})
                    \cup (IF want >= 0 /\ lf + NtBase(IF want = 0 THEN Fmt(f, lf) ELSE want) > Len(f) THEN {"error_reading_image_nt_headers"} ELSE {}))

Nt(f, lf, fmt) ==    \* NT headers as loaded
    LET nr == U32(f, lf + oNrva(fmt))
        n == Min2(16, nr)
        body == Raw(f, lf, NtBase(fmt)) \o Raw(f, lf + NtBase(fmt), 8 * n) \o Zeros(128 - 8 * n)
    IN IF nr > 16 THEN Patch(body, oNrva(fmt), <<16, 0, 0, 0>>) ELSE body

\* AlignUp in 32-bit arithmetic wraps to zero for sizes this close to 2^32
ImageSizeZero(nt) == \/ WIsZero(Raw(nt, oSoi, 4))
                     \/ WCarry(Raw(nt, oSoi, 4), WSub(Raw(nt, oSa, 4), WOne(4)))

\* effective raw size, contents position
ClippedRs(L, s) == IF s.rs # 0 /\ AlignUp(s.rs, L.fa) > AVS(L, s) THEN s.vs ELSE s.rs
DataPos(L, s, mem) == IF mem THEN AlignDown(s.va, L.sa) ELSE AlignDown(s.ptr, L.fa)

\* the same sizes as exact 32-bit words (fields may lie beyond the range of the saturated numbers)
WAvs(h, saw) == WAlignUp(IF WIsZero(Raw(h, 8, 4)) THEN Raw(h, 16, 4) ELSE Raw(h, 8, 4), saw)
WSecEnd(h, saw) == WAdd(Raw(h, 12, 4), WAvs(h, saw))

SecPart(f, L, h, mem, saw, soiw) ==
    LET s == [vs |-> U32(h, 8), va |-> U32(h, 12), rs |-> U32(h, 16), ptr |-> U32(h, 20)]
        big(o) == WLt(<<0, 0, 0, 128>>, Raw(h, o, 4))
    IN (IF s.rs = 0 /\ s.vs = 0 THEN {"zero_section_sizes"} ELSE {})
       \cup (IF WCarry(Raw(h, 12, 4), Raw(h, 8, 4)) \/ WCarry(Raw(h, 20, 4), Raw(h, 16, 4)) \/ big(8) \/ big(16)
             THEN {"section_incorrect_addr_or_size"} ELSE {})
       \cup (IF WCarry(Raw(h, 12, 4), WAvs(h, saw)) \/ WLt(WAlignUp(soiw, saw), WSecEnd(h, saw)) THEN {"section_incorrect_addr_or_size"} ELSE {})
       \cup (IF s.rs # 0 /\ AlignDown(s.ptr, L.fa) + ClippedRs(L, s) > Len(f) THEN {"section_incorrect_addr_or_size", "image_section_data_not_found"} ELSE {})
       \cup (IF s.rs # 0 /\ DataPos(L, s, mem) + ClippedRs(L, s) > Len(f) THEN {"image_section_data_not_found"} ELSE {})

SecHdrPos(f, lf, fmt, nt) == lf + U16(nt, oSooh) + 24
LoadedSecs(f, L, first, n, mem) ==
    [i \in 1..n |-> LET h == Raw(f, first + 40 * (i - 1), 40)
                        s == [vs |-> U32(h, 8), va |-> U32(h, 12), rs |-> U32(h, 16), ptr |-> U32(h, 20)]
                        rs == ClippedRs(L, s)
                    IN [h |-> PutW(h, 16, s.rs, rs), d |-> Raw(f, DataPos(L, s, mem), rs)]]

HdrSize(f, L, secs) ==
    LET ne == {i \in 1..Len(secs) : secs[i].d # <<>>} IN
    IF ne = {} THEN Min2(L.soh, Len(f)) ELSE Min2(L.soh, U32(secs[SetMin(ne)].h, 20))

\* second phase: everything after the NT headers are known to be readable
BodyPart(f, pos, mem, want) ==
    LET lf == U32(f, pos + 60)
        fmt == IF want = 0 THEN Fmt(f, lf) ELSE want
        nr == Min2(16, U32(f, lf + oNrva(fmt)))
    IN IF lf + NtBase(fmt) + 8 * nr > Len(f) THEN {"error_reading_data_directories"}
       ELSE LET nt == Nt(f, lf, fmt)
                nos == U16(nt, oNos)
                sa == U32(nt, oSa)
                fa == U32(nt, oFa)
                saBad == ~IsPow2W(Raw(nt, oSa, 4))
                faBad == ~IsPow2W(Raw(nt, oFa, 4)) \/ (fa # sa /\ (fa < 512 \/ fa > sa))
            IN (IF nos > MaxSections THEN {"section_number_incorrect"} ELSE {})
               \cup (IF saBad THEN {"incorrect_section_alignment"} \cup (IF sa = 0 THEN {"incorrect_file_alignment", "incorrect_size_of_image"} ELSE {}) ELSE {})
               \cup (IF faBad THEN {"incorrect_file_alignment"} ELSE {})
               \cup (IF ~saBad /\ ImageSizeZero(nt) THEN {"incorrect_size_of_image"} ELSE {})
               \cup (IF nos > MaxSections \/ saBad \/ faBad THEN {}
                     ELSE LET first == SecHdrPos(f, lf, fmt, nt)
                              L == [sa |-> sa, fa |-> fa, soh |-> U32(nt, oSoh), soi |-> U32(nt, oSoi)]
                              avail == IF first > Len(f) THEN 0 ELSE Min2(nos, (Len(f) - first) \div 40)
                              sp == UNION {SecPart(f, L, Raw(f, first + 40 * (i - 1), 40), mem, Raw(nt, oSa, 4), Raw(nt, oSoi, 4)) : i \in 1..avail}
                          IN (IF nos > 0 /\ first > Len(f) THEN {"image_section_headers_not_found", "error_reading_section_header"} ELSE {})
                             \cup (IF avail < nos THEN {"error_reading_section_header"} ELSE {})
                             \cup sp
                             \cup (IF avail < nos \/ sp # {} THEN {}
                                   ELSE LET secs == LoadedSecs(f, L, first, nos, mem)
                                            saw == Raw(nt, oSa, 4)
                                        IN (IF nos > 0 /\ WLt(Raw(secs[1].h, 12, 4), Raw(nt, oSoh, 4)) THEN {"incorrect_size_of_headers"} ELSE {})
                                           \cup (IF \E i \in 1..(nos - 1) : Raw(secs[i + 1].h, 12, 4) # WSecEnd(secs[i].h, saw) THEN {"image_section_table_incorrect"} ELSE {})
                                           \cup (IF HdrSize(f, L, secs) > Len(f) THEN {"error_reading_file"} ELSE {})))

Violations(f, pos, mem, want) ==
    LET d == DosPart(f, pos, want) IN
    \* a loader told which format to expect reads the headers as that format: its other refusals are truthful too
    IF d = {"pe_signature_incorrect"} /\ want # 0 THEN d \cup BodyPart(f, pos, mem, want)
    ELSE IF d # {} THEN d ELSE BodyPart(f, pos, mem, want)

\* The image a valid stream denotes
LoadImage(f, pos, mem, want) ==
    LET lf == U32(f, pos + 60)
        fmt == IF want = 0 THEN Fmt(f, lf) ELSE want
        nt == Nt(f, lf, fmt)
        L == [sa |-> U32(nt, oSa), fa |-> U32(nt, oFa), soh |-> U32(nt, oSoh), soi |-> U32(nt, oSoi)]
        first == SecHdrPos(f, lf, fmt, nt)
        secs == LoadedSecs(f, L, first, U16(nt, oNos), mem)
        rawEnd == {U32(f, first + 40 * (i - 1) + 20) + U32(f, first + 40 * (i - 1) + 16) : i \in {j \in 1..Len(secs) : U32(f, first + 40 * (j - 1) + 16) # 0}}
    IN [fmt |-> fmt, dos |-> Raw(f, pos, 64), stub |-> IF lf > 64 THEN Raw(f, 64, lf - 64) ELSE <<>>,
        hdr |-> Raw(f, 0, HdrSize(f, L, secs)), nt |-> nt,
        ovl |-> IF rawEnd = {} THEN secs # <<>> ELSE Len(f) > SetMax(rawEnd),
        secs |-> secs, dbg |-> <<>>]

\* two projections of an image agree (recorded debug data is covered by Debug)
SameImage(a, b) == /\ a.fmt = b.fmt /\ a.dos = b.dos /\ a.stub = b.stub /\ a.hdr = b.hdr
                   /\ a.nt = b.nt /\ a.secs = b.secs
DiffImage(a, b) ==
    (IF a.fmt # b.fmt THEN {"fmt"} ELSE {}) \cup (IF a.dos # b.dos THEN {"dos-header"} ELSE {})
    \cup (IF a.stub # b.stub THEN {"stub"} ELSE {}) \cup (IF a.hdr # b.hdr THEN {"header-area"} ELSE {})
    \cup (IF a.nt # b.nt THEN {"nt-headers"} ELSE {})
    \cup (IF Len(a.secs) # Len(b.secs) THEN {"section-count"}
          ELSE (IF \E i \in 1..Len(a.secs) : a.secs[i].h # b.secs[i].h THEN {"section-headers"} ELSE {})
               \cup (IF \E i \in 1..Len(a.secs) : a.secs[i].d # b.secs[i].d THEN {"section-contents"} ELSE {}))
\* everything an image holds, raw debug data and the overlay flag included
DiffAll(a, b) == DiffImage(a, b) \cup (IF a.dbg # b.dbg THEN {"debug data"} ELSE {}) \cup (IF a.ovl # b.ovl THEN {"overlay flag"} ELSE {})

----------------------------------------------------------------------------
(* Rebuilding.  Relational: RebuildDiff gives the set of requirements that  *)
(* the produced file `out` and the image `after` violate, given the image   *)
(* `img` before and the options o == [strip, soh, bound].                   *)
DosLen(o) == IF o.strip THEN 16 ELSE 64
NtWritten(img) == NtBase(img.fmt) + 8 * ImgNrva(img)
StubOut(img, o) == IF o.strip THEN <<>> ELSE img.stub
HeadersEnd(img, o) == DosLen(o) + AlignUp(Len(StubOut(img, o)), 4) + NtWritten(img) + 40 * Len(img.secs)
\* the header area holds a bound import directory that has to be moved along
BoundInHeaders(img, o) == o.bound /\ DirExists(img, 11) /\ DirRva(img, 11) <= U32(img.nt, oSoh)
BoundLen(img, o) == IF BoundInHeaders(img, o) THEN DirSize(img, 11) ELSE 0
\* where the bound import data is found before the rebuild
BoundSrc(img) ==
    LET r == DirRva(img, 11)  n == DirSize(img, 11) IN
    IF r < Len(img.hdr) THEN IF r + n <= Len(img.hdr) THEN Raw(img.hdr, r, n) ELSE <<-1>>
    ELSE LET S == RvaSections(Lay(img), r) IN
         IF S = {} THEN <<-1>>
         ELSE LET s == Lay(img).secs[SetMin(S)] IN IF r - s.va + n <= ViewLen(Lay(img), s, "virt") THEN ViewBytes(s, r - s.va, n) ELSE <<-1>>
DataStart(img, o) == AlignUp(HeadersEnd(img, o) + BoundLen(img, o), U32(img.nt, oFa))

RebuildRefused(img, o) == o.soh /\ img.secs # <<>> /\ DataStart(img, o) > Lay(img).secs[1].va

ExpectedNt(img, o) ==
    LET L == Lay(img)
        n1 == IF o.strip THEN Patch(img.nt, oBoc, LE4(16)) ELSE img.nt
        n2 == IF BoundInHeaders(img, o) THEN Patch(n1, oDir(img.fmt, 11), LE4(HeadersEnd(img, o))) ELSE n1
        n3 == IF o.soh THEN Patch(n2, oSoh, LE4(DataStart(img, o))) ELSE n2
        n4 == Patch(n3, oNos, LE2(Len(img.secs)))
        n5 == Patch(n4, oSoi, LE4(ImageEnd([L EXCEPT !.soh = U32(n3, oSoh)])))
    IN Patch(n5, oSooh, LE2(NtSize(img.fmt) - 24 - 8 * (16 - ImgNrva(img))))

RebuildDiff(img, o, after, out) ==
    LET L == Lay(after)
        he == HeadersEnd(img, o)
        stub == StubOut(img, o)
        lf == U32(out, 60)
        rawSecs == {i \in 1..Len(L.secs) : L.secs[i].rs # 0}
        ends(i) == L.secs[i].ptr + L.secs[i].rs
        ent == ExpectedNt(img, o)
    IN (IF after.nt # ent THEN {"rebuild:headers-in-memory"} ELSE {})
       \cup (IF after.dos # img.dos \/ after.hdr # img.hdr \/ after.dbg # img.dbg \/ after.ovl # img.ovl \/ after.fmt # img.fmt THEN {"rebuild:other-state-in-memory"} ELSE {})
       \cup (IF after.stub # stub THEN {"rebuild:stub-in-memory"} ELSE {})
       \cup (IF Len(after.secs) # Len(img.secs) \/ \E i \in 1..Len(img.secs) : \/ after.secs[i].d # img.secs[i].d
                                                      \/ Patch(after.secs[i].h, 20, Zeros(4)) # Patch(img.secs[i].h, 20, Zeros(4))
             THEN {"rebuild:sections-in-memory"} ELSE {})
       \cup (IF Len(out) < he THEN {"rebuild:file-too-short"}
             ELSE (IF SubSeq(out, 1, DosLen(o)) # (IF o.strip THEN SubSeq(img.dos, 1, 16) ELSE SubSeq(img.dos, 1, 60) \o LE4(64 + AlignUp(Len(stub), 4)))
                   THEN {"rebuild:dos-header"} ELSE {})
                  \cup (IF lf # DosLen(o) + AlignUp(Len(stub), 4) THEN {"rebuild:e_lfanew"} ELSE {})
                  \cup (IF Raw(out, DosLen(o), AlignUp(Len(stub), 4)) # Pad(stub, AlignUp(Len(stub), 4)) THEN {"rebuild:stub"} ELSE {})
                  \cup (IF Raw(out, DosLen(o) + AlignUp(Len(stub), 4), NtWritten(img)) # SubSeq(ent, 1, NtWritten(img)) THEN {"rebuild:nt-headers"} ELSE {})
                  \cup (IF \E i \in 1..Len(after.secs) : Raw(out, he - 40 * Len(after.secs) + 40 * (i - 1), 40) # after.secs[i].h THEN {"rebuild:section-headers"} ELSE {})
                  \cup (IF BoundInHeaders(img, o) /\ (Len(out) < he + BoundLen(img, o) \/ Raw(out, he, BoundLen(img, o)) # BoundSrc(img)) THEN {"rebuild:bound-import-data"} ELSE {})
                  \cup (IF \E i \in rawSecs : ~Aligned(L.secs[i].ptr, L.fa) THEN {"rebuild:pointer-unaligned"} ELSE {})
                  \cup (IF \E i \in rawSecs : L.secs[i].ptr < he + BoundLen(img, o) \/ ends(i) > Len(out) THEN {"rebuild:section-outside-file"}
                        ELSE (IF \E i \in rawSecs, j \in rawSecs : i < j /\ L.secs[j].ptr < ends(i) THEN {"rebuild:sections-overlap"} ELSE {})
                             \cup (IF \E i \in rawSecs : Raw(out, L.secs[i].ptr, L.secs[i].rs) # Resize(L.secs[i].d, L.secs[i].rs) THEN {"rebuild:section-bytes"} ELSE {})
                             \cup (LET occ(p) == p <= he + BoundLen(img, o) \/ \E i \in rawSecs : p > L.secs[i].ptr /\ p <= ends(i)
                                   IN IF \E p \in 1..Len(out) : ~occ(p) /\ out[p] # 0 THEN {"rebuild:gap-not-zero"} ELSE {})
                             \cup (IF rawSecs # {} /\ Len(out) >= SetMax({ends(i) : i \in rawSecs}) + L.fa THEN {"rebuild:trailing-garbage"} ELSE {})))

\* the image a reload of the produced file must give (requires every section to fit its address space)
ReloadOk(img) == LET L == Lay(img) IN
    \A i \in 1..Len(L.secs) : AlignUp(L.secs[i].rs, L.fa) <= AVS(L, L.secs[i])
\* conditions under which the written file has to be loadable
Reloadable(img) == LET L == Lay(img) IN
    /\ WellFormed(L) /\ ReloadOk(img) /\ L.soi > 0
    /\ (L.secs # <<>> => L.soh <= L.secs[1].va)
    /\ \A i \in 1..Len(L.secs) : L.secs[i].vs + L.secs[i].rs > 0
    /\ L.sa > 0 /\ L.fa > 0 /\ IsPow2W(LE4(L.sa)) /\ IsPow2W(LE4(L.fa)) /\ (L.fa = L.sa \/ (L.fa >= 512 /\ L.fa <= L.sa))
ReloadDiff(after, r) ==
    (IF r.fmt # after.fmt THEN {"reload:format"} ELSE {})
    \cup (IF r.nt # after.nt /\ SubSeq(r.nt, 1, NtWritten(after)) # SubSeq(after.nt, 1, NtWritten(after)) THEN {"reload:headers"} ELSE {})
    \cup (IF r.stub # Pad(after.stub, AlignUp(Len(after.stub), 4)) THEN {"reload:stub"} ELSE {})
    \cup (IF Len(r.secs) # Len(after.secs) THEN {"reload:section-count"}
          ELSE (IF \E i \in 1..Len(r.secs) : r.secs[i].h # after.secs[i].h THEN {"reload:section-headers"} ELSE {})
               \cup (IF \E i \in 1..Len(r.secs) : r.secs[i].d # Resize(after.secs[i].d, U32(after.secs[i].h, 16)) THEN {"reload:section-contents"} ELSE {}))

=============================================================================

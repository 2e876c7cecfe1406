------------------------------- MODULE ImgOps ------------------------------
(* Meaning of every image-level API call: ImgStep(env, e) takes the model   *)
(* state and a recorded call (arguments and observable outcome) and yields  *)
(* the next model state and the set of disagreements with the recorded      *)
(* outcome.  env == [img, file, det, ...], each a map from slot to value.   *)
EXTENDS Image

Res(env, bad) == [env |-> env, bad |-> bad]
Ok(env) == Res(env, {})
XBad(e, exp) == IF e.exc = exp THEN {} ELSE {"outcome " \o e.exc \o ", specified " \o exp}
EqBad(what, got, exp) == IF got = exp THEN {} ELSE {what \o ": got " \o ToString(got) \o ", specified " \o ToString(exp)}
\* outcome must be exp; results are compared only for successful calls
XRes(e, exp, resbad) == IF e.exc # exp THEN XBad(e, exp) ELSE IF exp # "none" THEN {} ELSE resbad

Im(env, e) == env.img[Opt(e, "img", 0)]
SetIm(env, e, img) == [env EXCEPT !.img = Put(env.img, Opt(e, "img", 0), img)]
FileOf(env, e) == IF Has(e, "data") THEN e.data ELSE env.file[Opt(e, "file", 0)]

SetFile(env, e, b) == LET k == Opt(e, "file", 0) IN
    [env |-> [env EXCEPT !.file = Put(env.file, k, b), !.reb = [x \in DOMAIN env.reb \ {k} |-> env.reb[x]]], bad |-> {}]

\* target section of a call: attached (1-based index) or detached (0)
IsDet(e) == Has(e, "det")
Tgt(e) == IF IsDet(e) THEN 0 ELSE e.sec + 1
TgtSec(env, e) == IF IsDet(e) THEN env.det[e.det] ELSE Im(env, e).secs[e.sec + 1]
SetTgt(env, e, x) == IF IsDet(e) THEN [env EXCEPT !.det = Put(env.det, e.det, x)]
                     ELSE SetIm(env, e, [Im(env, e) EXCEPT !.secs[e.sec + 1] = x])
BlankHdr == Zeros(40)
MkSec(e) == LET h1 == IF Has(e, "name") THEN Patch(BlankHdr, 0, Resize(Take(e.name, 8), 8)) ELSE BlankHdr
                h2 == IF Has(e, "vs") THEN Patch(h1, 8, LE4(e.vs)) ELSE h1
                h3 == IF Has(e, "va") THEN Patch(h2, 12, LE4(e.va)) ELSE h2
                h4 == IF Has(e, "ch") THEN Patch(h3, 36, Take(e.ch, 4)) ELSE h3
            IN [h |-> h4, d |-> Opt(e, "raw", <<>>)]

\* --- reads through the address space -------------------------------------
\* RdAt: bytes at an RVA in a view; <<-1>> if the object does not lie inside
SecIdx(L, rva) == LET S == RvaSections(L, rva) IN IF S = {} THEN 0 ELSE SetMin(S)
RdSec(L, s, rva, n, view) ==
    IF rva < s.va \/ rva >= SecEnd(L, s) THEN [exc |-> "rva_not_exists", b |-> <<>>]
    ELSE IF ViewLen(L, s, view) < rva - s.va + n THEN [exc |-> "rva_not_exists", b |-> <<>>]
    ELSE [exc |-> "none", b |-> IF rva - s.va + n <= Len(s.d) THEN SubSeq(s.d, rva - s.va + 1, rva - s.va + n) ELSE ViewBytes(s, rva - s.va, n)]
Rd(img, rva, n, view, hdrs) ==
    IF hdrs /\ rva + n <= Len(img.hdr) THEN [exc |-> "none", b |-> SubSeq(img.hdr, rva + 1, rva + n)]
    ELSE LET L == Lay(img)  i == SecIdx(L, rva) IN
         IF i = 0 THEN [exc |-> "no_section_found", b |-> <<>>] ELSE RdSec(L, L.secs[i], rva, n, view)
LenAt(img, rva, view, hdrs) ==
    IF hdrs /\ rva < Len(img.hdr) THEN [exc |-> "none", n |-> Len(img.hdr)]
    ELSE LET L == Lay(img)  i == SecIdx(L, rva) IN
         IF i = 0 THEN [exc |-> "no_section_found", n |-> 0]
         ELSE [exc |-> "none", n |-> IF view = "raw" THEN Len(L.secs[i].d) ELSE AVS(L, L.secs[i])]
LenAt2(img, rva, inside, view, hdrs) ==
    IF hdrs /\ rva < Len(img.hdr) /\ inside < Len(img.hdr) THEN [exc |-> "none", n |-> Len(img.hdr) - inside]
    ELSE LET L == Lay(img)  i == SecIdx(L, rva) IN
         IF i = 0 THEN [exc |-> "no_section_found", n |-> 0]
         ELSE IF inside < L.secs[i].va THEN [exc |-> "rva_not_exists", n |-> 0]
         ELSE [exc |-> "none", n |-> Max2(0, (IF view = "raw" THEN Len(L.secs[i].d) ELSE AVS(L, L.secs[i])) - (inside - L.secs[i].va))]

\* --- address words ----------------------------------------------------------
\* VA to RVA; bc: check that the difference fits 32 bits
VaToRva(img, va, bc) ==   \* va: 4 or 8 byte word
    LET d == WSub(WExt(va, 8), WExt(ImgBase(img), 8)) IN
    IF bc /\ ~WIsZero(SubSeq(d, 5, 8)) THEN [exc |-> "incorrect_address_conversion", w |-> <<>>]
    ELSE [exc |-> "none", w |-> SubSeq(d, 1, 4)]
RvaToVa32(img, rva) ==
    LET b == SubSeq(ImgBase(img), 1, 4) IN
    IF WCarry(rva, b) THEN [exc |-> "incorrect_address_conversion", w |-> <<>>] ELSE [exc |-> "none", w |-> WAdd(rva, b)]
RvaToVa64(img, rva) == WAdd(WExt(rva, 8), WExt(ImgBase(img), 8))
\* resolves the address argument of a call to an RVA (saturated)
Addr(img, via, v) ==
    IF via = "rva" THEN [exc |-> "none", rva |-> U32(v, 0)]
    ELSE LET r == VaToRva(img, IF via = "va32" THEN SubSeq(v, 1, 4) ELSE v, TRUE)
         IN [exc |-> r.exc, rva |-> IF r.exc = "none" THEN U32(r.w, 0) ELSE 0]

ConvStep(env, e) ==
    LET img == Im(env, e)
        L == Lay(img)
        v == e.v
        v4 == SubSeq(v, 1, 4)
        n == U32(v, 0)
        byIdx(i, exc0) == XRes(e, IF i = 0 THEN exc0 ELSE "none", EqBad("section index", <<e.idx, e.idx2>>, <<i - 1, i - 1>>))
        wordOf(x) == XRes(e, IF x = -1 THEN "no_section_found" ELSE "none", EqBad("address", e.w, LE4(x)))
        offIdx(x) == IF OffSections(L, x) = {} THEN 0 ELSE SetMin(OffSections(L, x))
        vaIdx(w) == LET r == VaToRva(img, w, TRUE) IN
                    IF r.exc # "none" THEN XBad(e, r.exc) ELSE byIdx(SecIdx(L, U32(r.w, 0)), "no_section_found")
    IN CASE e.k = "va2rva32" -> LET r == VaToRva(img, v4, Opt(e, "bc", TRUE)) IN XRes(e, r.exc, EqBad("rva", e.w, r.w))
         [] e.k = "va2rva64" -> LET r == VaToRva(img, v, Opt(e, "bc", TRUE)) IN XRes(e, r.exc, EqBad("rva", e.w, r.w))
         [] e.k = "rva2va32" -> LET r == RvaToVa32(img, v4) IN XRes(e, r.exc, EqBad("va", <<e.w, e.w2>>, <<r.w, r.w>>))
         [] e.k = "rva2va64" -> XRes(e, "none", EqBad("va", <<e.w, e.w2>>, <<RvaToVa64(img, v4), RvaToVa64(img, v4)>>))
         [] e.k = "rva2off" -> wordOf(RvaToOffset(L, n))
         [] e.k = "off2rva" -> wordOf(OffsetToRva(L, n))
         [] e.k = "sec_rva" -> byIdx(SecIdx(L, n), "no_section_found")
         [] e.k = "sec_va32" -> vaIdx(v4)
         [] e.k = "sec_va64" -> vaIdx(v)
         [] e.k = "sec_off" -> byIdx(offIdx(n), "no_section_found")
         [] e.k = "sec_dir" -> IF n >= ImgNrva(img) THEN XBad(e, "directory_does_not_exist")
                               ELSE byIdx(SecIdx(L, DirRva(img, n)), "no_section_found")
         [] e.k = "sec_and_off" -> LET i == SecIdx(L, n) IN
                                   XRes(e, IF i = 0 THEN "no_section_found" ELSE "none", EqBad("section and offset", <<e.idx, e.w>>, <<i - 1, LE4(n - L.secs[i].va)>>))
         [] e.k = "sec_rva_off" -> XRes(e, "none", EqBad("rva", e.w, WAdd(Raw(TgtSec(env, e).h, 12, 4), v4)))

RdStep(env, e) ==
    LET img == Im(env, e)
        L == Lay(img)
        a == Addr(img, Opt(e, "via", "rva"), e.v)
        view == Opt(e, "view", "raw")
        r == IF Has(e, "sec") \/ IsDet(e) THEN RdSec(L, Sec(TgtSec(env, e)), a.rva, e.n, view)
             ELSE Rd(img, a.rva, e.n, view, Opt(e, "hdrs", FALSE))
    IN IF a.exc # "none" THEN XBad(e, a.exc) ELSE XRes(e, r.exc, EqBad("bytes read", e.b, r.b))

PtrStep(env, e) ==
    LET img == Im(env, e)
        L == Lay(img)
        a == Addr(img, Opt(e, "via", "rva"), e.v)
        mut == Opt(e, "mut", FALSE)
        view == IF mut THEN "raw" ELSE Opt(e, "view", "raw")
        one == Has(e, "sec") \/ IsDet(e)
        hd == ~one /\ Opt(e, "hdrs", FALSE) /\ a.rva < Len(img.hdr)
        i == SecIdx(L, a.rva)
        s == IF one THEN Sec(TgtSec(env, e)) ELSE L.secs[i]
        outside == IF one THEN a.rva < s.va \/ a.rva >= SecEnd(L, s) ELSE i = 0
        exc == IF a.exc # "none" THEN a.exc
               ELSE IF hd THEN "none"
               ELSE IF outside THEN (IF one THEN "rva_not_exists" ELSE "no_section_found")
               ELSE IF mut /\ s.d = <<>> THEN "section_is_empty" ELSE "none"
        n == Opt(e, "cnt", 1)
        n2 == IF hd THEN Min2(n, Len(img.hdr) - a.rva) ELSE Max2(0, Min2(n, ViewLen(L, s, view) - (a.rva - s.va)))
    IN XRes(e, exc, EqBad("bytes at pointer", e.b, IF hd THEN Raw(img.hdr, a.rva, n2) ELSE ViewBytes(s, a.rva - s.va, n2)))

LenStep(env, e) ==
    LET img == Im(env, e)
        L == Lay(img)
        via == Opt(e, "via", "rva")
        a == Addr(img, via, e.v)
        view == Opt(e, "view", "raw")
        hd == Opt(e, "hdrs", FALSE)
        a2 == IF Has(e, "v2") THEN Addr(img, via, e.v2) ELSE a
        one == Has(e, "sec") \/ IsDet(e)
        s == Sec(TgtSec(env, e))
        r == IF one THEN LET k == Remaining(L, s, a.rva, view) IN [exc |-> IF k = -1 THEN "rva_not_exists" ELSE "none", n |-> k]
             ELSE IF Has(e, "v2") THEN LenAt2(img, a.rva, a2.rva, view, hd) ELSE LenAt(img, a.rva, view, hd)
    IN IF a.exc # "none" THEN XBad(e, a.exc) ELSE IF a2.exc # "none" THEN XBad(e, a2.exc)
       ELSE XRes(e, r.exc, EqBad("length", e.len, r.n))

\* every conversion, lookup and read at every address below e.n
ExcNo(x) == CASE x = "no_section_found" -> -1 [] x = "rva_not_exists" -> -2 [] x = "incorrect_address_conversion" -> -3
SweepConv(img, n) ==
    LET L == Lay(img)
        At(f(_)) == [k \in 1..n |-> f(k - 1)]
        idx(S) == IF S = {} THEN -1 ELSE SetMin(S) - 1
        orExc(r) == IF r.exc = "none" THEN r.w ELSE <<ExcNo(r.exc)>>
    IN [off |-> At(LAMBDA x : RvaToOffset(L, x)), rva |-> At(LAMBDA x : OffsetToRva(L, x)),
        sr |-> At(LAMBDA x : idx(RvaSections(L, x))), so |-> At(LAMBDA x : idx(OffSections(L, x))),
        va |-> At(LAMBDA x : orExc(RvaToVa32(img, LE4(x)))), bk |-> At(LAMBDA x : LE4(x))]
SweepReads(img, n) ==
    LET orExc(r) == IF r.exc = "none" THEN r.b ELSE <<ExcNo(r.exc)>>
        orLen(r) == IF r.exc = "none" THEN r.n ELSE ExcNo(r.exc)
        modes == <<<<"raw", FALSE>>, <<"raw", TRUE>>, <<"virt", FALSE>>, <<"virt", TRUE>>>>
    IN [rd |-> [m \in 1..4 |-> [k \in 1..(3 * n) |-> orExc(Rd(img, (k - 1) \div 3, <<1, 4, 8>>[1 + ((k - 1) % 3)], modes[m][1], modes[m][2]))]],
        ln |-> [m \in 1..4 |-> [k \in 1..n |-> orLen(LenAt(img, k - 1, modes[m][1], modes[m][2]))]]]
SweepStep(env, e) ==
    LET img == Im(env, e)
        C == SweepConv(img, e.n)
        R == SweepReads(img, e.n)
        at(what, got, want) == IF got = want THEN {} ELSE LET D == {k \in 1..Len(want) : k > Len(got) \/ got[k] # want[k]} IN {what \o " at address " \o ToString(SetMin(D \cup {999999}) - 1)}
        two(what, got, want) == UNION {at(what \o " (view " \o ToString(m) \o ")", got[m], want[m]) : m \in 1..4}
    IN IF e.exc # "none" THEN XBad(e, "none")
       ELSE at("file offset", e.off, C.off) \cup at("rva of offset", e.rva, C.rva) \cup at("section by rva", e.sr, C.sr) \cup at("section by offset", e.so, C.so)
            \cup at("virtual address", e.va, C.va) \cup at("rva of virtual address", e.bk, C.bk) \cup two("length", e.ln, R.ln) \cup two("read (3 sizes per address)", e.rd, R.rd)

\* --- header fields -------------------------------------------------------------
HdrField(img, f) ==    \* [offset, width] of a settable field
    LET n == WordN(img.fmt) IN
    CASE f = "ep" -> <<oEp, 4>> [] f = "ch" -> <<oCh, 2>> [] f = "dch" -> <<oDch, 2>> [] f = "subsys" -> <<oSubsys, 2>>
      [] f \in {"base4", "base8"} -> <<oBase(img.fmt), n>> [] f \in {"sr4", "sr8"} -> <<oSr(img.fmt), n>>
      [] f \in {"sc4", "sc8"} -> <<oSc(img.fmt), n>> [] f \in {"hr4", "hr8"} -> <<oHr(img.fmt), n>>
      [] f \in {"hc4", "hc8"} -> <<oHc(img.fmt), n>> [] f = "sum" -> <<oSum, 4>> [] f = "ts" -> <<oTs, 4>> [] f = "mach" -> <<4, 2>>
      [] f = "boc" -> <<oBoc, 4>> [] f = "nrva" -> <<oNrva(img.fmt), 4>> [] f = "soh" -> <<oSoh, 4>> [] f = "sooh" -> <<oSooh, 2>>
Is4(f) == f \in {"base4", "sr4", "sc4", "hr4", "hc4"}
SetField(img, f, v) ==   \* v: 8-byte word
    CASE f = "chset" -> [img EXCEPT !.nt = Patch(img.nt, oCh, LE2(Or16(U16(img.nt, oCh), U16(v, 0))))]
      [] f = "chclr" -> [img EXCEPT !.nt = Patch(img.nt, oCh, LE2(Clr16(U16(img.nt, oCh), U16(v, 0))))]
      [] f = "os" -> [img EXCEPT !.nt = Patch(img.nt, oOsMaj, SubSeq(v, 1, 4))]
      [] f = "ss" -> [img EXCEPT !.nt = Patch(img.nt, oSsMaj, SubSeq(v, 1, 4))]
      [] OTHER -> LET p == HdrField(img, f)
                      w == WExt(IF Is4(f) THEN SubSeq(v, 1, 4) ELSE v, p[2])
                  IN [img EXCEPT !.nt = Patch(img.nt, p[1], w)]
Getters(img) ==
    LET F(f) == LET p == HdrField(img, f) IN Raw(img.nt, p[1], p[2])
        W4(f) == SubSeq(F(f), 1, 4)
        W8(f) == WExt(F(f), 8)
    IN [lfanew |-> Raw(img.dos, 60, 4), fa |-> Raw(img.nt, oFa, 4), sa |-> Raw(img.nt, oSa, 4), soi |-> Raw(img.nt, oSoi, 4), ep |-> F("ep"),
        nrva |-> F("nrva"), ch |-> F("ch"), dch |-> F("dch"), soh |-> F("soh"), sooh |-> F("sooh"), sig |-> Raw(img.nt, 0, 4),
        magic |-> Raw(img.nt, oMagic, 2) \o <<0, 0>>, sum |-> F("sum"), ts |-> F("ts"), mach |-> F("mach"), subsys |-> F("subsys"),
        osmaj |-> Raw(img.nt, oOsMaj, 2), osmin |-> Raw(img.nt, oOsMin, 2), ssmaj |-> Raw(img.nt, oSsMaj, 2), ssmin |-> Raw(img.nt, oSsMin, 2),
        nos |-> Raw(img.nt, oNos, 2), boc |-> F("boc"), base4 |-> W4("base4"), base8 |-> W8("base8"), sr4 |-> W4("sr4"), sr8 |-> W8("sr8"),
        sc4 |-> W4("sc4"), sc8 |-> W8("sc8"), hr4 |-> W4("hr4"), hr8 |-> W8("hr8"), hc4 |-> W4("hc4"), hc8 |-> W8("hc8"),
        gui |-> U16(img.nt, oSubsys) = 2, con |-> U16(img.nt, oSubsys) = 3, ty |-> img.fmt, soN |-> NtSize(img.fmt), soO |-> NtSize(img.fmt) - 24]
GettersBad(g, x) == {"getter " \o k \o ": got " \o ToString(g[k]) \o ", specified " \o ToString(x[k]) : k \in {k \in DOMAIN x : g[k] # x[k]}}

\* --- directories -------------------------------------------------------------------
RemoveDir(img, id) ==
    IF ~DirExists(img, id) THEN img
    ELSE LET n1 == Patch(img.nt, oDir(img.fmt, id), Zeros(8))
             n2 == IF id = 5 THEN Patch(Patch(n1, oCh, LE2(Or16(U16(n1, oCh), 1))), oDch, LE2(Clr16(U16(n1, oDch), 64)))
                   ELSE IF id = 0 THEN Patch(n1, oCh, LE2(Clr16(U16(n1, oCh), 8192))) ELSE n1
         IN [img EXCEPT !.nt = n2]
StripCount(img, min, iat) ==
    LET keep == {i \in 0..15 : DirExists(img, i) /\ ~(iat /\ i = 12)}
        last == IF keep = {} THEN 0 ELSE SetMax(keep) + 1
    IN Max2(last, Min2(min, ImgNrva(img)))
HasList(img) ==
    LET x(i) == DirExists(img, i) IN
    <<x(0), x(1), x(2), x(3), x(4), x(5) /\ U16(img.nt, oCh) % 2 = 0, x(6), x(9), x(10), x(11), x(13), x(14)>>

\* --- checksum, Rich records, entropy -------------------------------------------------
SumWithout(f, skip) ==
    LET word(i) == IF skip % 4 = 0 /\ (2 * i = skip \/ 2 * i = skip + 2) THEN 0
                   ELSE f[2 * i + 1] + (IF 2 * i + 2 <= Len(f) THEN 256 * f[2 * i + 2] ELSE 0)
        n == (Len(f) + 1) \div 2
        s == FoldLeft(LAMBDA acc, i : LET t == acc + word(i - 1) IN IF t > 65535 THEN t - 65535 ELSE t, 0, [i \in 1..n |-> i])
    IN s + Len(f)
CheckSum(f, pos) == SumWithout(f, U32(f, pos + 60) + 88)
\* a PE header just below 4 GiB: there is no checksum field, and the place that wraps around may or may not be skipped
CheckSums(f, pos) == {CheckSum(f, pos)} \cup (IF Raw(f, pos + 61, 3) = <<255, 255, 255>> /\ U8(f, pos + 60) >= 168 THEN {SumWithout(f, U8(f, pos + 60) - 168)} ELSE {})

RichId == <<82, 105, 99, 104>>
DansId == <<68, 97, 110, 83>>
RECURSIVE RichRecs(_, _, _)
RichRecs(s, p, key) ==
    IF p + 8 > Len(s) \/ Raw(s, p, 4) = RichId THEN <<>>
    ELSE LET w == WXor(Raw(s, p, 4), key) IN
         <<[n |-> <<w[3], w[4], 0, 0>>, v |-> <<w[1], w[2], 0, 0>>, t |-> WXor(Raw(s, p + 4, 4), key)]>> \o RichRecs(s, p + 8, key)
RichData(s) ==
    LET R == {o \in 0..(Len(s) - 4) : Raw(s, o, 4) = RichId} IN
    IF R = {} THEN <<>>
    ELSE LET r == SetMin(R) IN
         IF r + 8 > Len(s) THEN <<>>
         ELSE LET key == Raw(s, r + 4, 4)
                  want == WXor(DansId, key)
                  D == {o \in 0..(Len(s) - 4) : s[o + 1] = want[1] /\ Raw(s, o, 4) = want}
              IN IF D = {} THEN <<>> ELSE RichRecs(s, SetMin(D) + 16, key)

\* log2 in units of 2^-12, by repeated squaring of a 14-bit mantissa
RECURSIVE ILog(_)
ILog(x) == IF x < 2 THEN 0 ELSE 1 + ILog(x \div 2)
RECURSIVE FracLog(_, _)
FracLog(m, k) == IF k = 0 THEN 0 ELSE LET q == (m * m) \div 16384 IN
                 IF q >= 32768 THEN 2 ^ (k - 1) + FracLog(q \div 2, k - 1) ELSE FracLog(q, k - 1)
Log2(x) == LET i == ILog(x) IN IF 2 ^ i = x THEN 4096 * i
           ELSE 4096 * i + FracLog(IF i <= 14 THEN x * 2 ^ (14 - i) ELSE x \div (2 ^ (i - 14)), 12)
Hist(d) == FoldLeft(LAMBDA h, x : [h EXCEPT ![x + 1] = @ + 1], [i \in 1..256 |-> 0], d)
EntropyUnits == 65536      \* of one bit
EntropyExact(d) == LET h == Hist(d) IN (\A i \in 1..256 : h[i] = 0 \/ 2 ^ ILog(h[i]) = h[i]) /\ 2 ^ ILog(Len(d)) = Len(d)
EntropyOf(d) ==
    LET h == Hist(d)
        n == Len(d)
        k == IF n > 8192 THEN 16 ELSE 1        \* (long sequences in coarser units, to stay within 32 bits)
        num == FoldLeft(LAMBDA acc, i : acc + (IF h[i] = 0 THEN 0 ELSE h[i] * ((Log2(n) - Log2(h[i])) \div k)), 0, [i \in 1..256 |-> i])
    IN ((num * 2) \div n) * 8 * k
EntropyBad(got, d) ==    \* got in units of 2^-16
    LET spec == EntropyOf(d)
        diff == IF got > spec THEN got - spec ELSE spec - got
    IN IF d = <<>> THEN EqBad("entropy", got, 0)
       ELSE IF diff > (IF EntropyExact(d) THEN 16 ELSE 1200) THEN {"entropy: got " \o ToString(got) \o ", specified " \o ToString(spec)} ELSE {}
AllData(img) == FoldLeft(LAMBDA acc, s : acc \o s.d, <<>>, img.secs)

\* --- the loader -------------------------------------------------------------------------
StreamBad(e) == IF e.spos # Opt(e, "pos", 0) \/ ~e.smask \/ ~e.sclear THEN {"stream state not restored"} ELSE {}
LoadStep(env, e) ==
    LET f == FileOf(env, e)
        pos == Opt(e, "pos", 0)
        how == Opt(e, "how", "factory")
        mem == Opt(e, "mem", FALSE)
        want == IF how = "32" THEN 32 ELSE IF how = "64" THEN 64 ELSE 0
        \* the image a rebuild wrote to this file, if the file still is what it wrote
        wr == IF ~Has(e, "data") /\ pos = 0 /\ ~mem /\ how # "type" /\ Opt(e, "file", 0) \in DOMAIN env.reb THEN <<env.reb[Opt(e, "file", 0)]>> ELSE <<>>
        V == IF how = "type" THEN DosPart(f, pos, -1) ELSE Violations(f, pos, mem, want)
        img == LoadImage(f, pos, mem, want)
        stream == StreamBad(e)
    IN IF V # {} /\ wr # <<>> /\ want \in {0, wr[1].fmt} /\ Reloadable(wr[1]) THEN Res(env, {"rebuilt file cannot be loaded: " \o ToString(V)})
       ELSE IF V # {} THEN Res(env, stream \cup (IF e.exc \in V THEN {} ELSE {"load outcome " \o e.exc \o ", violated conditions " \o ToString(V)}))
       ELSE IF e.exc # "none" THEN Res(env, stream \cup XBad(e, "none"))
       ELSE IF how = "type" THEN Res(env, stream \cup EqBad("type", e.ty, Fmt(f, U32(f, pos + 60))))
       ELSE Res(SetIm(env, e, e.st), (IF wr # <<>> /\ ReloadOk(wr[1]) THEN ReloadDiff(wr[1], e.st) ELSE {}) \cup stream \cup {"loaded " \o x : x \in DiffImage(img, e.st)} \cup EqBad("overlay flag", e.st.ovl, img.ovl))

\* --- rebuilding ------------------------------------------------------------------------------
RebOpts(e) == [strip |-> Opt(e, "strip", FALSE), soh |-> Opt(e, "soh", TRUE), bound |-> Opt(e, "bound", TRUE)]
\* a bound import directory that is not completely present cannot be preserved
BoundRefusal(img, o) ==
    IF ~(o.bound /\ DirExists(img, 11)) THEN "none"
    ELSE LET r == LenAt2(img, DirRva(img, 11), DirRva(img, 11), "virt", TRUE) IN
         IF r.exc # "none" THEN r.exc ELSE IF r.n < DirSize(img, 11) THEN "incorrect_bound_import_directory" ELSE "none"
RebuildStep(env, e) ==
    LET img == Im(env, e)
        o == RebOpts(e)
        br == BoundRefusal(img, o)
        exp == IF br # "none" THEN br ELSE IF RebuildRefused(img, o) THEN "cannot_rebuild_image" ELSE "none"
    IN IF e.exc # exp THEN Res(env, XBad(e, exp))
       ELSE IF exp # "none" THEN Res(SetIm(env, e, e.st), {"refused rebuild changed " \o x : x \in DiffAll(img, e.st)})
       ELSE Res([SetIm(env, e, e.st) EXCEPT !.file = Put(env.file, Opt(e, "file", 0), e.out), !.reb = Put(env.reb, Opt(e, "file", 0), e.st)], RebuildDiff(img, o, e.st, e.out))

\* --- dispatch -------------------------------------------------------------------------------------
LayStep(env, e, r) ==    \* r: result of a Layout operation on the image
    IF e.exc # r.exc THEN Res(env, XBad(e, r.exc))
    ELSE LET img == Im(env, e)
             i == IF Has(e, "sec") \/ IsDet(e) THEN Tgt(e) ELSE 1
             env1 == SetIm(env, e, UnLay(img, r.L, [h |-> BlankHdr, d |-> <<>>]))
         IN Res(IF i = 0 THEN [env1 EXCEPT !.det = Put(env.det, e.det, UnSec(env.det[e.det], r.s))] ELSE env1, {})

AddStep(env, e, x) ==
    LET img == Im(env, e)
        r == Add(Lay(img), Sec(x), Opt(e, "auto", TRUE))
    IN IF e.exc # r.exc THEN Res(env, XBad(e, r.exc))
       ELSE IF r.exc # "none" THEN Ok(env)
       ELSE Res(SetIm(env, e, UnLay(img, r.L, x)), EqBad("index of added section", e.idx, Len(img.secs)))

FlagBit(f) == IF f = "r" THEN <<40, 64>> ELSE IF f = "w" THEN <<40, 128>> ELSE IF f = "x" THEN <<40, 32>> ELSE IF f = "s" THEN <<40, 16>> ELSE <<40, 2>>
SetBit8(b, m, on) == LET has == (b \div m) % 2 = 1 IN IF on = has THEN b ELSE IF on THEN b + m ELSE b - m
SetFlag(h, f, on) == LET p == FlagBit(f) IN [h EXCEPT ![p[1]] = SetBit8(@, p[2], on)]
HasFlag(h, f) == LET p == FlagBit(f) IN (h[p[1]] \div p[2]) % 2 = 1
CStr(b) == LET Z == {i \in 1..Len(b) : b[i] = 0} IN IF Z = {} THEN b ELSE SubSeq(b, 1, SetMin(Z) - 1)
SecSetters(h, e) ==
    LET h1 == IF Has(e, "name") THEN Patch(h, 0, Resize(Take(e.name, 8), 8)) ELSE h
        h2 == IF Has(e, "flag") THEN SetFlag(h1, e.flag, Opt(e, "on", TRUE)) ELSE h1
        h3 == IF Has(e, "ch") THEN Patch(h2, 36, Take(e.ch, 4)) ELSE h2
        P(x, k, o) == IF Has(e, k) THEN Patch(x, o, LE4(e[k])) ELSE x
    IN P(P(P(P(h3, "ptr", 20), "va", 12), "vs", 8), "rs", 16)
SecGettersBad(env, e) ==
    LET x == TgtSec(env, e)  L == Lay(Im(env, e))  s == Sec(x) IN
    EqBad("section getters", <<e.name, e.r, e.w, e.x, e.s, e.dd, e.vs, e.va, e.rs, e.ptr, e.ch, e.avs, e.ars>>,
          <<CStr(SubSeq(x.h, 1, 8)), HasFlag(x.h, "r"), HasFlag(x.h, "w"), HasFlag(x.h, "x"), HasFlag(x.h, "s"), HasFlag(x.h, "d"),
            Raw(x.h, 8, 4), Raw(x.h, 12, 4), Raw(x.h, 16, 4), Raw(x.h, 20, 4), Raw(x.h, 36, 4), AVS(L, s), IF s.rs = 0 THEN 0 ELSE ARS(L, s)>>)

ImgStep(env, e) ==
    LET img == Im(env, e)
        L == Lay(img)
        quiet(bad) == Res(env, bad)
    IN
    CASE e.op = "new" -> Res(SetIm(env, e, NewImage(e.fmt, Opt(e, "sa", 4096), Opt(e, "dll", FALSE), Opt(e, "subsys", 2))), XBad(e, "none"))
      [] e.op = "load" -> LoadStep(env, e)
      [] e.op = "st" -> quiet({"image " \o x : x \in DiffAll(img, e.st)})
      [] e.op = "checksum" ->
            LET f == FileOf(env, e)  pos == Opt(e, "pos", 0)
                bad == pos + 64 > Len(f) \/ (pos + 64 <= Len(f) /\ U16(f, pos) # 23117)
            IN quiet(StreamBad(e)
                     \cup XRes(e, IF bad THEN "bad_dos_header" ELSE "none", IF \E c \in CheckSums(f, pos) : e.sum = LE4(c) THEN {} ELSE EqBad("checksum", e.sum, LE4(CheckSum(f, pos)))))
      [] e.op = "rebuild" -> RebuildStep(env, e)
      [] e.op = "file_set" -> SetFile(env, e, e.b)
      [] e.op = "setfa_raw" -> Res(SetIm(env, e, [img EXCEPT !.nt = Patch(img.nt, oFa, LE4(e.fa))]), XBad(e, "none"))
      [] e.op = "file_patch" -> SetFile(env, e, IF e.off + Len(e.b) <= Len(FileOf(env, e)) THEN Patch(FileOf(env, e), e.off, e.b) ELSE FileOf(env, e))
      [] e.op = "file_cut" -> SetFile(env, e, Take(FileOf(env, e), e.n))
      [] e.op = "file_app" -> SetFile(env, e, FileOf(env, e) \o e.b)
      [] e.op = "file_get" -> quiet(EqBad("file", e.out, FileOf(env, e)))
      [] e.op = "img_copy" -> Res([env EXCEPT !.img = Put(env.img, e.to, env.img[e.from])], XRes(e, "none", {"copy " \o x : x \in DiffAll(env.img[e.from], e.st)}))
      [] e.op = "img_assign" -> Res([env EXCEPT !.img = Put(env.img, e.to, env.img[e.from])], XRes(e, "none", {"assigned image " \o x : x \in DiffAll(env.img[e.from], e.st)}))
      [] e.op = "img_drop" -> Ok(env)
      [] e.op = "addsec" -> AddStep(env, e, MkSec(e))
      [] e.op = "adddet" -> AddStep(env, e, env.det[e.det])
      [] e.op = "det_new" -> Ok([env EXCEPT !.det = Put(env.det, e.det, MkSec(e))])
      [] e.op = "det_st" -> quiet(EqBad("section", e.s, TgtSec(env, e)))
      [] e.op = "prepare" -> LET x == TgtSec(env, e)  p == PrepareSec(L, Sec(x))  y == UnSec(x, p.s)
                             IN Res(SetTgt(env, e, y), XBad(e, p.exc) \cup EqBad("prepared section", e.s, y))
      [] e.op = "recalc" -> LayStep(env, e, Recalc(L, Tgt(e), Sec(TgtSec(env, e)), Opt(e, "strip", FALSE)))
      [] e.op = "setvs" -> LayStep(env, e, SetVirtualSize(L, Tgt(e), Sec(TgtSec(env, e)), e.vs))
      [] e.op = "expand" -> LET r == Expand(L, Tgt(e), Sec(TgtSec(env, e)), IF Has(e, "rel") THEN Sec(TgtSec(env, e)).va + e.rel ELSE e.rva, e.size, e.kind)
                                x == LayStep(env, e, r)
                            IN Res(x.env, x.bad \cup XRes(e, r.exc, EqBad("expanded", e.ret, r.ret)))
      [] e.op = "realign_sec" -> LayStep(env, e, RealignSection(L, e.idx + 1))
      [] e.op = "realign_all" -> LayStep(env, e, [exc |-> "none", L |-> RealignAll(L)])
      [] e.op = "realign_file" -> LayStep(env, e, RealignFile(L, e.fa))
      [] e.op = "setfa" -> LayStep(env, e, SetFileAlignment(L, e.fa))
      [] e.op = "upd_size" -> LayStep(env, e, [exc |-> "none", L |-> UpdateSize(L)])
      [] e.op = "upd_num" -> LET x == LayStep(env, e, [exc |-> "none", L |-> [L EXCEPT !.nos = Len(L.secs)]]) IN Res(x.env, x.bad \cup XRes(e, "none", EqBad("section count", e.ret, Len(L.secs))))
      [] e.op = "attached" -> quiet(XRes(e, "none", EqBad("attached", e.ret, ~IsDet(e))))
      [] e.op = "sec_edit" -> LET x == TgtSec(env, e) IN Ok(IF e.off + Len(e.b) <= Len(x.d) THEN SetTgt(env, e, [x EXCEPT !.d = Patch(x.d, e.off, e.b)]) ELSE env)
      \* (only contents are written through the virtual view)
      [] e.op = "sec_vwrite" -> LET x == TgtSec(env, e) IN Ok(IF e.off + Len(e.b) <= Len(x.d) THEN SetTgt(env, e, [x EXCEPT !.d = Patch(x.d, e.off, e.b)]) ELSE env)
      [] e.op = "sec_resize" -> LET x == TgtSec(env, e) IN Ok(SetTgt(env, e, [x EXCEPT !.d = IF e.n <= Len(x.d) THEN SubSeq(x.d, 1, e.n) ELSE x.d \o [i \in 1..(e.n - Len(x.d)) |-> Opt(e, "fill", 0)]]))
      [] e.op = "sec_setraw" -> Ok(SetTgt(env, e, [TgtSec(env, e) EXCEPT !.d = e.raw]))
      [] e.op = "sec_virt" -> LET s == Sec(TgtSec(env, e)) IN quiet(XRes(e, "none", EqBad("virtual length", e.len, ViewLen(L, s, "virt")) \cup EqBad("virtual data", e.nz, Trim(s.d))))
      [] e.op = "sec_rawget" -> quiet(XRes(e, "none", EqBad("raw data", e.d, TgtSec(env, e).d)))
      [] e.op = "sec_empty" -> quiet(XRes(e, "none", EqBad("empty", e.ret, TgtSec(env, e).d = <<>>)))
      [] e.op = "sec_copy" -> Ok([env EXCEPT !.det = Put(env.det, e.to, TgtSec(env, IF Has(e, "fromdet") THEN [det |-> e.fromdet] ELSE e))])
      [] e.op = "sec_remove_last" -> Ok(SetIm(env, e, [img EXCEPT !.secs = SubSeq(img.secs, 1, Len(img.secs) - 1)]))
      [] e.op = "sec_hdr" -> LET x == TgtSec(env, e) IN Ok(SetTgt(env, e, [x EXCEPT !.h = Patch(x.h, e.off, e.b)]))
      [] e.op = "sec_setters" -> LET x == TgtSec(env, e) IN Ok(SetTgt(env, e, [x EXCEPT !.h = SecSetters(x.h, e)]))
      [] e.op = "sec_getters" -> quiet(XRes(e, "none", SecGettersBad(env, e)))
      [] e.op = "conv" -> quiet(ConvStep(env, e))
      [] e.op = "sweep" -> quiet(SweepStep(env, e))
      [] e.op = "rd" -> quiet(RdStep(env, e))
      [] e.op = "ptr" -> quiet(PtrStep(env, e))
      [] e.op = "len" -> quiet(LenStep(env, e))
      [] e.op = "dir_exists" -> quiet(XRes(e, "none", EqBad("directory exists", e.ret, DirExists(img, e.id))))
      [] e.op = "dir_get" -> quiet(XRes(e, IF e.id >= ImgNrva(img) THEN "directory_does_not_exist" ELSE "none", EqBad("directory", <<e.rva, e.size>>, <<DirRvaW(img, e.id), DirSizeW(img, e.id)>>)))
      [] e.op \in {"dir_setrva", "dir_setsize"} ->
            IF e.id >= ImgNrva(img) THEN quiet(XBad(e, "directory_does_not_exist"))
            ELSE Res(SetIm(env, e, [img EXCEPT !.nt = Patch(img.nt, oDir(img.fmt, e.id) + (IF e.op = "dir_setrva" THEN 0 ELSE 4), SubSeq(e.v, 1, 4))]), XBad(e, "none"))
      [] e.op = "dir_remove" -> Res(SetIm(env, e, RemoveDir(img, e.id)), XBad(e, "none"))
      [] e.op = "dir_strip" -> LET n == StripCount(img, e.min, Opt(e, "iat", TRUE)) IN
            Res(SetIm(env, e, [img EXCEPT !.nt = Patch(img.nt, oNrva(img.fmt), LE4(n))]), XRes(e, "none", EqBad("directory count", e.ret, n)))
      [] e.op = "dir_has" -> quiet(XRes(e, "none", EqBad("has-directory predicates", e.ret, HasList(img))))
      [] e.op = "nt_patch" -> Ok(SetIm(env, e, [img EXCEPT !.nt = Patch(img.nt, e.off, e.b)]))
      [] e.op = "dos_patch" -> Ok(SetIm(env, e, [img EXCEPT !.dos = Patch(img.dos, e.off, e.b)]))
      [] e.op = "stub_set" -> Ok(SetIm(env, e, [img EXCEPT !.stub = e.b]))
      [] e.op = "stub_strip" -> Ok(SetIm(env, e, [img EXCEPT !.stub = <<>>]))
      [] e.op = "stub_fill" -> Ok(SetIm(env, e, [img EXCEPT !.stub = [i \in 1..Len(img.stub) |-> e.ch]]))
      [] e.op = "stub_get" -> quiet(XRes(e, "none", EqBad("stub", e.b, img.stub)))
      [] e.op = "rich" -> quiet(XRes(e, "none", EqBad("rich records", e.recs, RichData(img.stub))))
      [] e.op = "getf" -> quiet(XRes(e, "none", GettersBad(e.g, Getters(img))))
      [] e.op = "setf" -> Res(SetIm(env, e, SetField(img, e.f, e.v)), XBad(e, "none"))
      [] e.op = "chflag" -> quiet(XRes(e, "none", EqBad("flag", e.ret, And16(U16(img.nt, oCh), U16(e.v, 0)) # 0)))
      [] e.op = "entropy" ->
            LET k == Opt(e, "k", "str")
                d == IF k = "str" THEN e.data ELSE IF k = "stream" THEN SubSeq(e.data, Opt(e, "pos", 0) + 1, Len(e.data)) ELSE IF k = "sec" THEN TgtSec(env, e).d ELSE AllData(img)
                exp == IF d # <<>> \/ k = "img" THEN "none" ELSE IF k = "sec" THEN "section_is_empty" ELSE "data_is_empty"
            IN quiet((IF k = "stream" THEN StreamBad(e) ELSE {}) \cup XRes(e, exp, EntropyBad(e.e, d)))

ImgOpNames == {"new", "load", "st", "checksum", "rebuild", "file_set", "setfa_raw", "file_patch", "file_cut", "file_app", "file_get", "img_copy", "img_assign", "img_drop",
    "addsec", "adddet", "det_new", "det_st", "prepare", "recalc", "setvs", "expand", "realign_sec", "realign_all", "realign_file", "setfa",
    "upd_size", "upd_num", "attached", "sec_edit", "sec_vwrite", "sec_resize", "sec_setraw", "sec_virt", "sec_rawget", "sec_empty", "sec_copy",
    "sec_remove_last", "sec_hdr", "sec_setters", "sec_getters", "conv", "sweep", "rd", "ptr", "len", "dir_exists", "dir_get", "dir_setrva",
    "dir_setsize", "dir_remove", "dir_strip", "dir_has", "nt_patch", "dos_patch", "stub_set", "stub_strip", "stub_fill", "stub_get",
    "rich", "getf", "setf", "chflag", "entropy"}
=============================================================================

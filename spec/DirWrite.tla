------------------------------ MODULE DirWrite ------------------------------
(* One way of laying out export and import data: writers that meet the      *)
(* requirements of ExpRebuildStep and ImpBuild.  The library may choose any *)
(* other layout that the requirements allow.                                *)
EXTENDS Exports, Imports

\* the bytes of an export directory at P.rva
ExpBytes(P) ==
    LET F == P.byOrd
        min == IF F = <<>> THEN 0 ELSE F[1].ord
        named == SortSeq(SelectSeq(F, FNamed), LAMBDA a, b : SeqLt(a.name, b.name))
        nameA == P.rva + 40
        fA == nameA + Len(P.info.name) + 1
        nA == fA + 4 * P.nf
        oA == nA + 4 * P.nn
        sA == oA + 2 * P.nn
        \* strings: names in order of names, then the forwarders in order of ordinals
        nmPos(k) == sA + SumLen(SubSeq(named, 1, k - 1), LAMBDA f : Len(f.name) + 1)
        wA == nmPos(P.nn + 1)
        fwPos(k) == wA + SumLen(SubSeq(F, 1, k - 1), LAMBDA f : IF FFwded(f) THEN Len(f.fwd) + 1 ELSE 0)
        head == P.info.ch \o P.info.ts \o P.info.maj \o P.info.min \o LE4(nameA) \o P.info.base \o P.info.nf \o P.info.nn
                \o LE4(IF P.nf = 0 THEN 0 ELSE fA) \o LE4(IF P.nn = 0 THEN 0 ELSE nA) \o LE4(IF P.nn = 0 THEN 0 ELSE oA)
        slot(o) == LET K == {k \in 1..Len(F) : F[k].ord = min + o} IN IF K = {} THEN Zeros(4) ELSE LET k == SetMin(K) IN IF FFwded(F[k]) THEN LE4(fwPos(k)) ELSE FRva(F[k])
    IN head \o P.info.name \o <<0>>
       \o FlattenSeq([o \in 1..P.nf |-> slot(o - 1)])
       \o FlattenSeq([k \in 1..P.nn |-> LE4(nmPos(k))])
       \o FlattenSeq([k \in 1..P.nn |-> LE2(named[k].ord - min)])
       \o FlattenSeq([k \in 1..P.nn |-> named[k].name \o <<0>>])
       \o FlattenSeq([k \in 1..Len(F) |-> IF FFwded(F[k]) THEN F[k].fwd \o <<0>> ELSE <<>>])
\* section i after writing b at offset pos
PutRaw(img, i, pos, b) == LET d == img.secs[i].d IN [img EXCEPT !.secs[i].d = Patch(IF Len(d) < pos + Len(b) THEN Resize(d, pos + Len(b)) ELSE d, pos, b)]
\* raw bytes at an RVA
PutAt(img, rva, b) == LET w == Where(img, rva) IN IF w = 0 THEN [img EXCEPT !.hdr = Patch(@, rva, b)] ELSE PutRaw(img, w, rva - SecVa(img, w), b)
ExpWritten(img, e) == LET P == ExpPlan(img, e)  E == Recalculated(PutRaw(img, P.i, P.pos, ExpBytes(P)), P.i, Opt(e, "strip", TRUE)) IN IF Opt(e, "save", TRUE) THEN SetDir(E, 0, P.rva, P.size) ELSE E

\* strings first, then descriptors, address tables, lookup tables; tables that stay where they are are rewritten there
ImpWritten(img, e, libs) ==
    LET P == ImpPlan(img, e, libs)
        n == WordN(img.fmt)
        off == Opt(e, "off", 0)
        B == Opt(e, "build", TRUE)
        RW == Opt(e, "rewrite", FALSE)
        F == Opt(e, "fill", FALSE)
        i == P.i
        va == SecVa(img, i)
        saved(l) == ImpSaved(e, l)
        keepInt(l) == saved(l) /\ ~WIsZero(l.oiat)
        strOf(l) == l.name \o <<0>> \o FlattenSeq([k \in 1..Len(l.funcs) |-> LET f == l.funcs[k] IN IF f.hn THEN LE2(f.hint) \o f.name \o <<0>> ELSE <<>>])
        strPos(k) == off + SumLen(SubSeq(libs, 1, k - 1), LAMBDA l : Len(strOf(l)))
        fnPos(k, j) == strPos(k) + Len(libs[k].name) + 1 + SumLen(SubSeq(libs[k].funcs, 1, j - 1), LAMBDA f : IF f.hn THEN Len(f.name) + 3 ELSE 0)
        thunk(k, j) == LET f == libs[k].funcs[j] IN IF f.hn THEN WExt(LE4(va + fnPos(k, j)), n) ELSE [WExt(LE2(f.ord), n) EXCEPT ![n] = 128]
        look(k) == FlattenSeq([j \in 1..Len(libs[k].funcs) |-> thunk(k, j)]) \o Zeros(n)
        vas(k) == FlattenSeq([j \in 1..Len(libs[k].funcs) |-> SubSeq(libs[k].funcs[j].va, 1, n)]) \o Zeros(n)
        iatPos(k) == P.posIat + SumLen(SubSeq(libs, 1, k - 1), LAMBDA l : n * (1 + Len(l.funcs)))
        intPos(k) == P.posInt + SumLen(SubSeq(libs, 1, k - 1), LAMBDA l : IF ImpNewInt(e, l) THEN n * (1 + Len(l.funcs)) ELSE 0)
        newInt(k) == B /\ (~saved(libs[k]) \/ (F /\ WIsZero(libs[k].oiat)))
        \* the address table holds addresses when there is a lookup table beside it
        iat(k) == IF B /\ (~saved(libs[k]) \/ ~WIsZero(libs[k].oiat) \/ F) THEN vas(k) ELSE look(k)
        desc(k) == LET l == libs[k] IN
                   (IF ~B THEN Zeros(4) ELSE IF newInt(k) THEN LE4(va + intPos(k)) ELSE IF keepInt(l) THEN l.oiat ELSE Zeros(4))
                   \o l.ts \o Zeros(4) \o LE4(va + strPos(k)) \o (IF saved(l) THEN l.iat ELSE LE4(va + iatPos(k)))
        head == FlattenSeq([k \in 1..Len(libs) |-> strOf(libs[k])]) \o FlattenSeq([k \in 1..Len(libs) |-> desc(k)]) \o Zeros(20)
        I1 == PutRaw(PutRaw(img, i, off, head), i, P.end, <<>>)
        one(im, k) ==
            LET l == libs[k]
                a == IF saved(l) /\ ~RW THEN im ELSE IF saved(l) THEN PutAt(im, U32(l.iat, 0), iat(k)) ELSE PutRaw(im, i, iatPos(k), iat(k))
            IN IF newInt(k) THEN PutRaw(a, i, intPos(k), look(k))
               ELSE IF B /\ RW /\ keepInt(l) THEN PutAt(a, U32(l.oiat, 0), look(k))
               ELSE a
        I2 == FoldLeft(one, I1, [k \in 1..Len(libs) |-> k])
        E == Recalculated(I2, i, Opt(e, "strip", TRUE))
        E1 == IF Opt(e, "save", TRUE) THEN SetDir(E, 1, P.rva, P.size) ELSE E
    IN IF Opt(e, "save", TRUE) /\ Opt(e, "zeroiat", FALSE) THEN SetDir(E1, 12, 0, 0) ELSE E1
=============================================================================

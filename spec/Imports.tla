------------------------------- MODULE Imports ------------------------------
EXTENDS Dirs

ImpBad == [ok |-> FALSE, v |-> <<>>]
Snap(w) == w[Len(w)] >= 128       \* "by ordinal" flag of a lookup entry
\* entry of a lookup table: [ok, f] without the address
Lookup(img, w) ==
    IF Snap(w) THEN [ok |-> TRUE, f |-> [hn |-> FALSE, name |-> <<>>, hint |-> 0, ord |-> U16(w, 0)]]
    ELSE IF ~WIsZero(SubSeq(WExt(w, 8), 5, 8)) \/ U32(w, 0) >= BIG THEN [ok |-> FALSE]
    ELSE LET a == U32(w, 0)  s == StrAt(img, a + 2)  h == RdV(img, a, 2) IN
         IF ~s.ok \/ ~h.ok THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, f |-> [hn |-> s.s # <<>>, name |-> s.s, hint |-> U16(h.b, 0), ord |-> 0]]
\* functions of one library: address table at a, lookup table at b
RECURSIVE Thunks(_, _, _, _, _)
Thunks(img, n, a, b, acc) ==
    LET A == RdV(img, a, n)  B == RdV(img, b, n) IN
    IF ~A.ok THEN ImpBad
    ELSE IF WIsZero(A.b) THEN [ok |-> TRUE, v |-> acc]
    ELSE IF ~B.ok THEN ImpBad
    ELSE IF WIsZero(B.b) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET k == Lookup(img, B.b) IN
         IF ~k.ok THEN ImpBad
         ELSE Thunks(img, n, a + n, b + n, Append(acc, [va |-> WExt(A.b, 8)] @@ k.f))
RECURSIVE ImpDescs(_, _, _)
ImpDescs(img, p, acc) ==
    LET D == RdV(img, p, 20)
        d == D.b
        n == WordN(img.fmt)
        nm == StrAt(img, U32(d, 12))
        iat == U32(d, 16)
        oiat == U32(d, 0)
        A == RdV(img, iat, n)
        o == IF oiat = 0 THEN iat ELSE oiat
        B == RdV(img, o, n)
        T == IF WIsZero(A.b) \/ WIsZero(B.b) THEN [ok |-> TRUE, v |-> <<>>] ELSE Thunks(img, n, iat, o, <<>>)
    IN IF ~D.ok THEN ImpBad
       ELSE IF WIsZero(Raw(d, 12, 4)) THEN [ok |-> TRUE, v |-> acc]
       ELSE IF ~nm.ok \/ ~A.ok \/ ~B.ok THEN ImpBad
       ELSE IF ~T.ok THEN ImpBad
       ELSE ImpDescs(img, p + 20, Append(acc, [name |-> nm.s, iat |-> Raw(d, 16, 4), oiat |-> Raw(d, 0, 4), ts |-> Raw(d, 4, 4), funcs |-> T.v]))
ImportTable(img) == IF ~DirExists(img, 1) THEN [ok |-> TRUE, v |-> <<>>] ELSE ImpDescs(img, DirRva(img, 1), <<>>)

ImpReadStep(env, e) == LET t == ImportTable(Im(env, e)) IN Res(env, ReadBad(e, t.ok, ListBad("imported libraries", e.libs, t.v)))

\* --- rebuilding ---------------------------------------------------------------------
\* requested function, with the defaults of the library
QF(g) == [hn |-> Opt(g, "name", <<>>) # <<>>, name |-> Opt(g, "name", <<>>), hint |-> Opt(g, "hint", 0), ord |-> Opt(g, "ord", 0), va |-> IF Has(g, "va") THEN g.va ELSE Zeros(8)]
W4z(b, k) == IF Has(b, k) THEN SubSeq(b[k], 1, 4) ELSE <<0, 0, 0, 0>>
\* one thunk w stands for requested function f
ThunkIs(img, w, f, D) ==
    IF f.hn THEN LET k == Lookup(img, w) IN ~Snap(w) /\ k.ok /\ k.f.name = f.name /\ k.f.hint = f.hint /\ Inside(D, U32(w, 0), Len(f.name) + 3)
    ELSE Snap(w) /\ U16(w, 0) = f.ord /\ WIsZero(SubSeq([w EXCEPT ![Len(w)] = @ - 128], 3, Len(w)))

\* where a table that is rewritten in place lies: 0 headers, section index, -1 nowhere
Where(img, rva) == IF rva < Len(img.hdr) THEN 0 ELSE LET i == SecIdx(Lay(img), rva) IN IF i = 0 THEN -1 ELSE i
\* take n bytes at rva (raw data) over from st
TakeOver(img, st, rva, n) ==
    LET w == Where(img, rva)
        cp(d, o, from) == Patch(d, o, Resize(SubSeq(from, o + 1, Min2(Len(from), o + n)), n))
    IN IF w = 0 THEN [img EXCEPT !.hdr = cp(img.hdr, rva, st.hdr)]
       ELSE LET o == rva - SecVa(img, w) IN [img EXCEPT !.secs[w].d = IF o + n <= Len(img.secs[w].d) THEN cp(img.secs[w].d, o, st.secs[w].d) ELSE @]

\* what a rebuild is asked to do; saved, newInt, thunks: per library (see below)
ImpSaved(e, l) == Opt(e, "keep", TRUE) /\ ~WIsZero(l.iat)
ImpNewInt(e, l) == Opt(e, "build", TRUE) /\ (~ImpSaved(e, l) \/ (Opt(e, "fill", FALSE) /\ ~(Opt(e, "rewrite", FALSE) /\ ~WIsZero(l.oiat))))      \* a lookup table is written after the address tables
ImpPlan(img, e, libs) ==
    LET n == WordN(img.fmt)
        off == Opt(e, "off", 0)
        B == Opt(e, "build", TRUE)
        RW == Opt(e, "rewrite", FALSE)
        F == Opt(e, "fill", FALSE)
        i == Tgt(e)
        strs == SumLen(libs, LAMBDA l : Len(l.name) + 1 + SumLen(l.funcs, LAMBDA f : IF f.hn THEN Len(f.name) + 3 ELSE 0))
        iatSz == SumLen(libs, LAMBDA l : n * (1 + Len(l.funcs)))
        needed == 20 * (Len(libs) + 1) + iatSz * (IF B \/ F THEN 2 ELSE 1) + n + strs
        thunks(l) == n * (1 + Len(l.funcs))
        short(l) == ImpSaved(e, l) /\ RW /\ (RemR(img, U32(l.iat, 0)) <= thunks(l) \/ (B /\ ~WIsZero(l.oiat) /\ RemR(img, U32(l.oiat, 0)) <= thunks(l)))
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE (IF NoRoom(img, i, off + needed) THEN {"insufficient_space"} ELSE {})
                  \cup (IF \E k \in 1..Len(libs) : short(libs[k]) THEN {"insufficient_space", "no_section_found", "rva_not_exists"} ELSE {})
        rva == IF i = 0 THEN 0 ELSE SecVa(img, i) + off + strs
        size == needed - strs
        \* end of what is written: after the last lookup table
        posInt == AlignUp(off + strs + 20 * (Len(libs) + 1), n) + iatSz
        end == posInt + SumLen(libs, LAMBDA l : IF ImpNewInt(e, l) THEN thunks(l) ELSE 0)
    IN [X |-> X, i |-> i, strs |-> strs, needed |-> needed, rva |-> rva, size |-> size, posIat |-> posInt - iatSz, posInt |-> posInt, end |-> end]

ImpBuild(env, e, libs) ==
    LET img == Im(env, e)
        P == ImpPlan(img, e, libs)
        n == WordN(img.fmt)
        off == Opt(e, "off", 0)
        B == Opt(e, "build", TRUE)
        RW == Opt(e, "rewrite", FALSE)
        F == Opt(e, "fill", FALSE)
        i == P.i  needed == P.needed  rva == P.rva  size == P.size  end == P.end
        saved(l) == ImpSaved(e, l)
        thunks(l) == n * (1 + Len(l.funcs))
        init == Len(img.secs[i].d)
        newLen == Max2(init, end)
        E1 == WrittenAs([img EXCEPT !.secs[i].d = Resize(img.secs[i].d, newLen)], i, off, Min2(needed, newLen - off), e.st)
        E2 == FoldLeft(LAMBDA im, l : IF saved(l) /\ RW
                                      THEN LET a == TakeOver(im, e.st, U32(l.iat, 0), thunks(l)) IN
                                           IF B /\ ~WIsZero(l.oiat) THEN TakeOver(a, e.st, U32(l.oiat, 0), thunks(l)) ELSE a
                                      ELSE im, E1, libs)
        E3 == Recalculated(E2, i, Opt(e, "strip", TRUE))
        E4 == IF Opt(e, "save", TRUE) THEN SetDir(E3, 1, rva, size) ELSE E3
        E == IF Opt(e, "save", TRUE) /\ Opt(e, "zeroiat", FALSE) THEN SetDir(E4, 12, 0, 0) ELSE E4
        D == [rva |-> SecVa(img, i) + off, size |-> needed]
        st == e.st
        word(a) == RdV(st, a, n)
        \* table of thunks at a stands for the functions of l, and ends with a null
        tabOk(a, l) == \A k \in 0..Len(l.funcs) : LET w == word(a + n * k) IN w.ok /\ (IF k = Len(l.funcs) THEN WIsZero(w.b) ELSE ThunkIs(st, w.b, l.funcs[k + 1], D))
        vasOk(a, l) == \A k \in 0..Len(l.funcs) : LET w == word(a + n * k) IN w.ok /\ (IF k = Len(l.funcs) THEN WIsZero(w.b) ELSE w.b = SubSeq(l.funcs[k + 1].va, 1, n))
        libBad(k) ==
            LET l == libs[k]
                R == RdV(st, rva + 20 * (k - 1), 20)
                d == R.b
                ft == U32(d, 16)
                oft == U32(d, 0)
                nm == StrAt(st, U32(d, 12))
                new(a) == Inside([rva |-> rva + 20 * (Len(libs) + 1), size |-> D.rva + needed - (rva + 20 * (Len(libs) + 1))], a, thunks(l))
            IN IF ~R.ok THEN {"import descriptor unreadable"}
               ELSE (IF Raw(d, 8, 4) \notin {Zeros(4), WNot(Zeros(4))} THEN {"forwarder chain"} ELSE {})
                    \cup (IF Raw(d, 4, 4) # l.ts THEN {"library timestamp"} ELSE {})
                    \cup (IF ~nm.ok \/ nm.s # l.name \/ ~Inside(D, U32(d, 12), Len(l.name) + 1) THEN {"library name"} ELSE {})
                    \cup (IF ~saved(l)
                          THEN (IF ~new(ft) THEN {"address table outside the import data"} ELSE {})
                               \cup (IF B THEN (IF ~new(oft) THEN {"lookup table outside the import data"} ELSE {}) \cup (IF ~tabOk(oft, l) THEN {"lookup table"} ELSE {}) \cup (IF ~vasOk(ft, l) THEN {"address table"} ELSE {})
                                     ELSE (IF oft # 0 THEN {"lookup table RVA"} ELSE {}) \cup (IF ~tabOk(ft, l) THEN {"address table"} ELSE {}))
                          ELSE (IF Raw(d, 16, 4) # l.iat THEN {"saved address table RVA"} ELSE {})
                               \cup (IF ~B THEN (IF oft # 0 THEN {"lookup table RVA"} ELSE {}) \cup (IF RW /\ ~tabOk(ft, l) THEN {"rewritten address table"} ELSE {})
                                     ELSE IF ~WIsZero(l.oiat) THEN (IF Raw(d, 0, 4) # l.oiat THEN {"saved lookup table RVA"} ELSE {})
                                                                   \cup (IF RW /\ ~tabOk(oft, l) THEN {"rewritten lookup table"} ELSE {}) \cup (IF RW /\ ~vasOk(ft, l) THEN {"rewritten address table"} ELSE {})
                                     ELSE IF F THEN (IF ~new(oft) \/ ~tabOk(oft, l) THEN {"filled lookup table"} ELSE {}) \cup (IF RW /\ ~vasOk(ft, l) THEN {"rewritten address table"} ELSE {})
                                     ELSE (IF oft # 0 THEN {"lookup table RVA"} ELSE {}) \cup (IF RW /\ ~tabOk(ft, l) THEN {"rewritten address table"} ELSE {})))
        \* tables that are created must not share bytes
        tabs == {<<k, 16>> : k \in {k \in 1..Len(libs) : ~saved(libs[k])}} \cup {<<k, 0>> : k \in {k \in 1..Len(libs) : B /\ (~saved(libs[k]) \/ (F /\ WIsZero(libs[k].oiat)))}}
        at(x) == U32(RdV(st, rva + 20 * (x[1] - 1) + x[2], 4).b, 0)
        overlap == \E x \in tabs, y \in tabs : x # y /\ at(x) <= at(y) /\ at(y) < at(x) + thunks(libs[x[1]])
        last == RdV(st, rva + 20 * Len(libs), 20)
        content == UNION {{"library " \o ToString(k) \o ": " \o x : x \in libBad(k)} : k \in 1..Len(libs)}
                   \cup (IF last.ok /\ WIsZero(last.b) THEN {} ELSE {"no null descriptor at the end"})
                   \cup (IF overlap THEN {"import tables overlap"} ELSE {})
    IN RebuildOutcome(env, e, P.X, rva, size, E, content)

QLib(b) == [name |-> b.name, iat |-> W4z(b, "iat"), oiat |-> W4z(b, "oiat"), ts |-> W4z(b, "ts"), funcs |-> [k \in 1..Len(b.funcs) |-> QF(b.funcs[k])]]
QLibs(q) == [k \in 1..Len(q) |-> QLib(q[k])]
ImpStep(env, e) ==
    CASE e.op = "imp_read" -> ImpReadStep(env, e)
      [] e.op = "imp_rebuild" -> ImpBuild(env, e, QLibs(e.libs))
      [] e.op = "imp_append" ->
            LET t == ImportTable(Im(env, e)) IN
            IF ~t.ok THEN Res(env, IF LibExc(e.exc) THEN {} ELSE {"reading a malformed directory: outcome " \o e.exc})
            ELSE IF ~Has(e, "read") THEN Res(env, XBad(e, "none"))
            ELSE LET r == ImpBuild(env, e, [k \in 1..Len(t.v) |-> [t.v[k] EXCEPT !.funcs = @]] \o QLibs(e.libs)) IN Res(r.env, r.bad \cup ListBad("imported libraries", e.read, t.v))
ImpOpNames == {"imp_read", "imp_rebuild", "imp_append"}
=============================================================================

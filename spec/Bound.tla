-------------------------------- MODULE Bound -------------------------------
EXTENDS Dirs

BndBad == [ok |-> FALSE, v |-> <<>>]
\* NUL-terminated string inside the memory m at offset o
BStr(m, o) == IF o >= m.n THEN [ok |-> FALSE, s |-> <<>>] ELSE CStrIn(m.b, o, m.n - o)
RECURSIVE BndRefs(_, _, _, _)
BndRefs(m, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc]
    ELSE IF p + 8 > m.n THEN BndBad
    ELSE LET d == MWord(m, p, 8)  s == BStr(m, U16(d, 4)) IN IF ~s.ok THEN BndBad ELSE BndRefs(m, p + 8, n - 1, Append(acc, [name |-> s.s, ts |-> Raw(d, 0, 4)]))
RECURSIVE BndMods(_, _, _)
BndMods(m, p, acc) ==
    IF p + 8 > m.n THEN BndBad
    ELSE LET d == MWord(m, p, 8) IN
    IF U16(d, 4) = 0 THEN [ok |-> TRUE, v |-> acc]
    ELSE LET s == BStr(m, U16(d, 4))
             n == U16(d, 6)
             R == BndRefs(m, p + 8, n, <<>>)
         IN IF ~s.ok \/ p + 8 + 8 * n > m.n THEN BndBad
            ELSE IF ~R.ok THEN BndBad
            ELSE BndMods(m, p + 8 + 8 * n, Append(acc, [name |-> s.s, ts |-> Raw(d, 0, 4), n |-> n, refs |-> R.v]))
\* what lies in memory from rva to the end of its section (of the headers)
MemFrom(img, rva, n) == LET d == IF rva < Len(img.hdr) THEN Drop(img.hdr, rva) ELSE LET L == Lay(img)  s == L.secs[SecIdx(L, rva)] IN Drop(s.d, Min2(Len(s.d), rva - s.va))
                        IN [b |-> Take(d, n), n |-> n]
BoundTable(img) ==
    LET p == DirRva(img, 11)  n == RemV(img, p) IN
    IF ~HasList(img)[10] THEN [ok |-> TRUE, v |-> <<>>]
    ELSE IF n < 8 \/ n < DirSize(img, 11) THEN BndBad ELSE BndMods(MemFrom(img, p, n), 0, <<>>)

\* --- rebuilding ---------------------------------------------------------------
BTs(b) == IF Has(b, "ts") THEN SubSeq(b.ts, 1, 4) ELSE Zeros(4)
BoundPlan(img, e) ==
    LET i == Tgt(e)
        M == e.mods
        pos == AlignUp(Opt(e, "off", 0), 4)
        structs == 8 + SumLen(M, LAMBDA m : 8 + 8 * Len(m.refs))
        \* all names in the order they are written
        names == FoldLeft(LAMBDA acc, m : Append(acc, m.name) \o [k \in 1..Len(m.refs) |-> m.refs[k].name], <<>>, M)
        strs == SumLen(names, LAMBDA s : Len(s) + 1)
        needed == structs + strs
        \* [structures, strings] written so far
        put(acc, ts, nm, n) == [b |-> acc.b \o ts \o LE2(structs + Len(acc.s)) \o LE2(n), s |-> acc.s \o nm \o <<0>>]
        all == FoldLeft(LAMBDA acc, m : FoldLeft(LAMBDA a2, r : put(a2, BTs(r), r.name, 0), put(acc, BTs(m), m.name, Len(m.refs)), m.refs), [b |-> <<>>, s |-> <<>>], M)
        tooFar == names # <<>> /\ needed - Len(names[Len(names)]) - 1 > 65535
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE IF NoRoom(img, i, pos + needed) \/ tooFar THEN {"insufficient_space"} ELSE {}
        d0 == img.secs[i].d
        d1 == IF Len(d0) < pos + needed THEN Resize(d0, pos + needed) ELSE d0
        E0 == [img EXCEPT !.secs[i].d = Patch(d1, pos, all.b \o Zeros(8) \o all.s)]
        E1 == Recalculated(E0, i, Opt(e, "strip", TRUE))
        rva == SecVa(img, i) + pos
        E == IF Opt(e, "save", TRUE) THEN SetDir(E1, 11, rva, needed) ELSE E1
    IN [X |-> X, rva |-> IF X # {} THEN 0 ELSE rva, size |-> needed, E |-> IF X # {} THEN img ELSE E]
BoundRebuild(env, e) == LET P == BoundPlan(Im(env, e), e) IN RebuildOutcome(env, e, P.X, P.rva, P.size, P.E, {})
BndStep(env, e) ==
    CASE e.op = "bound_read" -> LET t == BoundTable(Im(env, e)) IN Res(env, ReadBad(e, t.ok, ListBad("bound modules", e.mods, t.v)))
      [] e.op = "bound_rebuild" -> BoundRebuild(env, e)
BndOpNames == {"bound_read", "bound_rebuild"}
=============================================================================

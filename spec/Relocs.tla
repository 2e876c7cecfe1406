------------------------------- MODULE Relocs -------------------------------
(* Base relocations: the table the format defines, its writer, and what     *)
(* moving the image base does to the image.                                 *)
EXTENDS Dirs

RelBad == [ok |-> FALSE, v |-> <<>>]
\* 0-based k-th item of the block at p
RelItem(img, p, k) == LET r == RdV(img, p + 8 + 2 * k, 2) IN
    IF ~r.ok THEN [ok |-> FALSE] ELSE LET w == U16(r.b, 0) IN [ok |-> TRUE, it |-> <<w % 4096, w \div 4096>>]
RECURSIVE RelBlocks(_, _, _, _, _, _)
RelBlocks(img, p, done, total, abs, acc) ==
    LET H == RdV(img, p, 8)
        size == U32(H.b, 4)
        n == (size - 8) \div 2
        its == [k \in 1..n |-> RelItem(img, p, k - 1).it]
        shown == IF abs THEN its ELSE SelectSeq(its, LAMBDA x : x[2] # 0)
    IN IF ~H.ok THEN RelBad
       ELSE IF size = 0 THEN [ok |-> TRUE, v |-> acc]
       ELSE IF size < 8 \/ size % 2 = 1 THEN RelBad
       ELSE IF n > 0 /\ ~RelItem(img, p, n - 1).ok THEN RelBad      \* (keeps n small in what follows)
       ELSE IF \E k \in 0..(n - 1) : ~RelItem(img, p, k).ok THEN RelBad
       ELSE LET a2 == Append(acc, [rva |-> Raw(H.b, 0, 4), items |-> shown]) IN
            IF done + size >= total THEN [ok |-> TRUE, v |-> a2]
            ELSE RelBlocks(img, p + size, done + size, total, abs, a2)
HasReloc(img) == HasList(img)[6]
RelocTables(img, abs) ==
    LET p == DirRva(img, 5)  H == RdV(img, p, 8) IN
    IF ~HasReloc(img) THEN [ok |-> TRUE, v |-> <<>>]
    ELSE IF RemV(img, p) < 8 \/ ~H.ok THEN RelBad
    ELSE IF WIsZero(DirSizeW(img, 5)) THEN [ok |-> TRUE, v |-> <<>>]
    ELSE RelBlocks(img, p, 0, DirSize(img, 5), abs, <<>>)

\* --- rebuilding ---------------------------------------------------------------
RelPad(t) == IF Len(t.items) % 2 = 1 THEN 2 ELSE 0
RelBlockLen(t) == 8 + 2 * Len(t.items) + RelPad(t)
RelRva(t) == IF Has(t, "rva") THEN SubSeq(t.rva, 1, 4) ELSE Zeros(4)
RelBytes(t) == RelRva(t) \o LE4(RelBlockLen(t))
               \o Strict([j \in 1..(2 * Len(t.items)) |-> LET x == t.items[(j + 1) \div 2] IN IF j % 2 = 1 THEN x[1] % 256 ELSE 16 * x[2] + x[1] \div 256]) \o Zeros(RelPad(t))
\* what rebuilding does: violated conditions, place, image afterwards
RelPlan(img, e) ==
    LET i == Tgt(e)
        off == Opt(e, "off", 0)
        pos == AlignUp(off, 4)
        pad == pos - off
        bytes == FoldLeft(LAMBDA acc, t : acc \o RelBytes(t), <<>>, e.tables)
        total == Len(bytes)
        \* a little more room than what is written may be asked for
        may == NoRoom(img, i, pos + total + pad) /\ Opt(e, "exc", "none") = "insufficient_space"
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE IF NoRoom(img, i, pos + total) \/ may THEN {"insufficient_space"} ELSE {}
        d0 == img.secs[i].d
        d1 == IF Len(d0) < pos + pad + total THEN Resize(d0, AlignUp(pos + pad + total, U32(img.nt, oFa))) ELSE d0
        rva == SecVa(img, i) + pos
        E0 == Recalculated([img EXCEPT !.secs[i].d = Patch(d1, pos, bytes)], i, Opt(e, "strip", TRUE))
        E1 == SetDir(E0, 5, rva, total)
        E == IF Opt(e, "save", TRUE)
             THEN [E1 EXCEPT !.nt = Patch(Patch(E1.nt, oCh, LE2(Clr16(U16(E1.nt, oCh), 1))), oDch, LE2(Or16(U16(E1.nt, oDch), 64)))]
             ELSE E0
    IN [X |-> X, rva |-> IF X # {} THEN 0 ELSE rva, size |-> total, E |-> IF X # {} THEN img ELSE E,
        S |-> IF X # {} THEN img ELSE [E1 EXCEPT !.nt = Patch(E1.nt, oCh, LE2(Clr16(U16(E1.nt, oCh), 1)))]]
\* what reading gives afterwards
RelPadded(tables) == [k \in 1..Len(tables) |-> [rva |-> RelRva(tables[k]), items |-> tables[k].items \o (IF RelPad(tables[k]) = 2 THEN <<<<0, 0>>>> ELSE <<>>)]]
RelRebuild(env, e) ==
    LET img == Im(env, e)
        P == RelPlan(img, e)
        \* the specification's own reader gives back what was asked for
        back == RelocTables([e.st EXCEPT !.nt = P.S.nt], TRUE)
        content == IF P.size = 0 \/ P.X # {} \/ e.exc # "none" THEN {} ELSE IF ~back.ok THEN {"the rebuilt relocation directory is malformed"} ELSE ListBad("rebuilt relocations", back.v, RelPadded(e.tables))
    IN RebuildOutcome(env, e, P.X, P.rva, P.size, P.E, content)

\* --- moving the image base ----------------------------------------------------
RelWidth(ty) == IF ty = 3 THEN 4 ELSE IF ty = 10 THEN 8 ELSE IF ty \in {1, 2} THEN 2 ELSE 0
\* what is added: the difference of the bases, or its half
RelDelta(ty, delta) == IF ty = 3 THEN SubSeq(delta, 1, 4) ELSE IF ty = 10 THEN delta ELSE IF ty = 1 THEN SubSeq(delta, 3, 4) ELSE SubSeq(delta, 1, 2)
RelFlat(tables) == FoldLeft(LAMBDA acc, t : acc \o [k \in 1..Len(t.items) |-> [w |-> LE2(t.items[k][1]) \o <<0, 0>>, b |-> RelRva(t), ty |-> t.items[k][2]]], <<>>, tables)
RelTarget(img, x) ==   \* the bytes one entry refers to: [ok, rva]
    LET w == WAdd(x.b, x.w)  rva == U32(w, 0) IN
    IF WCarry(x.b, x.w) \/ RelWidth(x.ty) = 0 THEN [ok |-> FALSE, rva |-> 0]
    ELSE [ok |-> Rd(img, rva, RelWidth(x.ty), "raw", TRUE).exc = "none", rva |-> rva]
WriteRaw(img, rva, b) ==
    IF rva + Len(b) <= Len(img.hdr) THEN [img EXCEPT !.hdr = Patch(img.hdr, rva, b)]
    ELSE LET i == SecIdx(Lay(img), rva) IN [img EXCEPT !.secs[i].d = Patch(@, rva - SecVa(img, i), b)]
Rebased(img, items, base) ==
    LET n == WordN(img.fmt)
        d0 == WSub(SubSeq(base, 1, n), ImgBase(img))
        \* difference of the bases as a 64-bit number
        delta == WSub(WExt(SubSeq(base, 1, n), 8), WExt(ImgBase(img), 8))
        one(im, x) == LET t == RelTarget(im, x)
                          w == RelWidth(x.ty)
                      IN WriteRaw(im, t.rva, WAdd(Rd(im, t.rva, w, "raw", TRUE).b, RelDelta(x.ty, delta)))
        moved == FoldLeft(one, img, items)
    IN [moved EXCEPT !.nt = Patch(moved.nt, oBase(img.fmt), SubSeq(base, 1, n))]
RebaseStep(env, e) ==
    LET img == Im(env, e)
        t == IF Has(e, "tables") THEN [ok |-> TRUE, v |-> e.tables] ELSE RelocTables(img, Opt(e, "abs", FALSE))
        items == SelectSeq(RelFlat(t.v), LAMBDA x : x.ty # 0)
        E == Rebased(img, items, e.base)
    IN IF ~t.ok THEN Res(env, IF LibExc(e.exc) THEN {} ELSE {"rebasing with a malformed relocation directory: outcome " \o e.exc})
       ELSE IF ~Has(e, "st") THEN Res(env, XBad(e, "none"))
       ELSE IF \E k \in 1..Len(items) : ~RelTarget(img, items[k]).ok
            THEN Res(SetIm(env, e, e.st), (IF LibExc(e.exc) THEN {} ELSE {"rebasing through an entry that cannot be applied: outcome " \o e.exc})
                                          \cup {"refused rebase changed " \o x : x \in DiffAll(img, e.st)})
       ELSE Res(SetIm(env, e, e.st), XBad(e, "none") \cup (IF Has(e, "tables") THEN {} ELSE ListBad("relocation tables", e.read, t.v))
                                     \cup {"rebase: unexpected " \o x : x \in DiffAll(E, e.st)})

RelStep(env, e) ==
    CASE e.op = "rel_read" -> LET t == RelocTables(Im(env, e), Opt(e, "abs", FALSE)) IN Res(env, ReadBad(e, t.ok, ListBad("relocation tables", e.tables, t.v)))
      [] e.op = "rel_rebuild" -> RelRebuild(env, e)
      [] e.op = "rebase" -> RebaseStep(env, e)
RelOpNames == {"rel_read", "rel_rebuild", "rebase"}
=============================================================================

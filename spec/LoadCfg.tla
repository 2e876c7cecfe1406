------------------------------- MODULE LoadCfg ------------------------------
EXTENDS Dirs

CfgBad == [ok |-> FALSE]
CfgSize(fmt) == IF fmt = 32 THEN 72 ELSE 112
\* [name, offset, width] of the fields after the common part
CfgF(fmt) == IF fmt = 32
    THEN [dfb |-> <<24, 4>>, dtf |-> <<28, 4>>, lpt |-> <<32, 4>>, mas |-> <<36, 4>>, vmt |-> <<40, 4>>, phf |-> <<44, 4>>, pam |-> <<48, 4>>, csd |-> <<52, 2>>,
          edl |-> <<56, 4>>, sck |-> <<60, 4>>, set |-> <<64, 4>>, sec |-> <<68, 4>>]
    ELSE [dfb |-> <<24, 8>>, dtf |-> <<32, 8>>, lpt |-> <<40, 8>>, mas |-> <<48, 8>>, vmt |-> <<56, 8>>, pam |-> <<64, 8>>, phf |-> <<72, 4>>, csd |-> <<76, 2>>,
          edl |-> <<80, 8>>, sck |-> <<88, 8>>, set |-> <<96, 8>>, sec |-> <<104, 8>>]
CfgCommon == [ts |-> <<4, 4>>, maj |-> <<8, 2>>, min |-> <<10, 2>>, gfc |-> <<12, 4>>, gfs |-> <<16, 4>>, cst |-> <<20, 4>>]
CfgAll(fmt) == CfgCommon @@ CfgF(fmt)
\* width in which a field is reported
CfgW(k) == IF k \in {"ts", "gfc", "gfs", "cst", "phf"} THEN 4 ELSE IF k \in {"maj", "min", "csd"} THEN 2 ELSE 8

CfgLocks(img, p) ==
    LET W == WordsAt(img, p, WordN(img.fmt), FALSE, <<>>)
        C == Strict([k \in 1..Len(W.v) |-> VaToRva(img, W.v[k], TRUE)])
    IN IF ~W.ok \/ \E k \in 1..Len(W.v) : C[k].exc # "none" THEN CfgBad ELSE [ok |-> TRUE, v |-> Strict([k \in 1..Len(W.v) |-> C[k].w])]
CfgTable(img) ==
    LET n == WordN(img.fmt)
        S == Rd(img, DirRva(img, 10), CfgSize(img.fmt), "virt", FALSE)
        F == CfgAll(img.fmt)
        fld(k) == Raw(S.b, F[k][1], F[k][2])
        cnt == ValSat(fld("sec"))
        tab == fld("set")
        T == VaToRva(img, tab, TRUE)
        h(k) == Rd(img, U32(T.w, 0) + 4 * (k - 1), 4, "virt", FALSE)
        lpt == fld("lpt")
        P == VaToRva(img, lpt, TRUE)
        C == IF WIsZero(lpt) THEN [ok |-> TRUE, v |-> <<>>] ELSE IF P.exc # "none" THEN CfgBad ELSE CfgLocks(img, U32(P.w, 0))
    IN IF ~HasList(img)[9] \/ S.exc # "none" THEN CfgBad
       ELSE IF U32(S.b, 0) < CfgSize(img.fmt) THEN CfgBad
       ELSE IF cnt > 65536 \/ ~WLt(tab, WSub(WNot(Zeros(n)), WExt(LE4(4 * cnt), n))) THEN CfgBad     \* no table that long lies in the image
       ELSE IF cnt > 0 /\ (T.exc # "none" \/ \E k \in 1..cnt : h(k).exc # "none") THEN CfgBad
       ELSE IF ~C.ok THEN CfgBad
       ELSE [ok |-> TRUE, t |-> [k \in DOMAIN F |-> WExt(fld(k), CfgW(k))] @@ [seh |-> [k \in 1..cnt |-> h(k).b], lock |-> C.v]]

\* --- rebuilding ---------------------------------------------------------------
QW(q, k, n) == IF Has(q, k) THEN WExt(q[k], n) ELSE Zeros(n)
QL(q, k) == IF Has(q, k) THEN [i \in 1..Len(q[k]) |-> SubSeq(q[k][i], 1, 4)] ELSE <<>>
CfgInfo(q) == [k \in DOMAIN CfgAll(32) |-> IF k = "sec" THEN Zeros(8) ELSE QW(q, k, CfgW(k))] @@ [seh |-> QL(q, "seh"), lock |-> QL(q, "lock")]
RvaToVaC(img, rva) == IF img.fmt = 32 THEN RvaToVa32(img, rva) ELSE [exc |-> "none", w |-> RvaToVa64(img, rva)]
Cat(q) == FlattenSeq(q)
CfgPlan(img, e) ==
    LET i == Tgt(e)
        q == CfgInfo(e.cfg)
        n == WordN(img.fmt)
        pos == AlignUp(Opt(e, "off", 0), n)
        size == CfgSize(img.fmt)
        ws == Opt(e, "wse", TRUE)
        wl == Opt(e, "wlp", TRUE)
        slen == IF ws THEN 4 * Len(q.seh) ELSE 0
        llen == IF wl THEN n * (Len(q.lock) + 1) ELSE 0
        needed == size + slen + llen
        rva == SecVa(img, i) + pos
        sva == IF ws /\ q.seh # <<>> THEN RvaToVaC(img, LE4(rva + size)) ELSE [exc |-> "none", w |-> Zeros(n)]
        lva == IF wl /\ q.lock # <<>> THEN RvaToVaC(img, LE4(rva + size + slen)) ELSE [exc |-> "none", w |-> Zeros(n)]
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE (IF NoRoom(img, i, pos + needed) THEN {"insufficient_space"} ELSE {})
                  \cup (IF sva.exc # "none" \/ lva.exc # "none" \/ (wl /\ \E k \in 1..Len(q.lock) : RvaToVaC(img, q.lock[k]).exc # "none") THEN {"incorrect_address_conversion"} ELSE {})
        F == CfgAll(img.fmt)
        val(k) == CASE k = "sec" -> LE4(Len(q.seh)) \o Zeros(4)
                    [] k = "set" -> IF ws THEN WExt(sva.w, 8) ELSE q.set
                    [] k = "lpt" -> IF wl THEN WExt(lva.w, 8) ELSE q.lpt
                    [] OTHER -> WExt(q[k], 8)
        head == FoldLeft(LAMBDA b, k : Patch(b, F[k][1], WExt(val(k), F[k][2])), Patch(Zeros(size), 0, LE4(size)),
                         <<"ts", "maj", "min", "gfc", "gfs", "cst", "dfb", "dtf", "lpt", "mas", "vmt", "phf", "pam", "csd", "edl", "sck", "set", "sec">>)
        bytes == head \o (IF ws THEN Cat(SortSeq(q.seh, LAMBDA a, b : WLt(a, b))) ELSE <<>>)
                 \o (IF wl /\ q.lock # <<>> THEN Cat([k \in 1..Len(q.lock) |-> RvaToVaC(img, q.lock[k]).w]) \o Zeros(n) ELSE <<>>)
        E0 == [img EXCEPT !.secs[i].d = Patch(IF Len(@) < pos + needed THEN Resize(@, pos + needed) ELSE @, pos, bytes)]
        E1 == Recalculated(E0, i, Opt(e, "strip", TRUE))
        E == IF Opt(e, "save", TRUE) THEN SetDir(E1, 10, rva, size) ELSE E1
    IN [X |-> X, rva |-> IF X # {} THEN 0 ELSE rva, size |-> size, E |-> IF X # {} THEN img ELSE E]
CfgRebuild(env, e) == LET P == CfgPlan(Im(env, e), e) IN RebuildOutcome(env, e, P.X, P.rva, P.size, P.E, {})
CfgHelpers(env, e) == LET q == CfgInfo(e.cfg) IN
    Res(env, XRes(e, "none", EqBad("load configuration", e.r, q) \cup EqBad("load configuration without lists", e.r2, [q EXCEPT !.seh = <<>>, !.lock = <<>>])))
CfgStep(env, e) ==
    CASE e.op = "cfg_read" -> LET t == CfgTable(Im(env, e)) IN Res(env, ReadBad(e, t.ok, EqBad("load configuration", e.cfg, t.t)))
      [] e.op = "cfg_rebuild" -> CfgRebuild(env, e)
      [] e.op = "cfg_helpers" -> CfgHelpers(env, e)
CfgOpNames == {"cfg_read", "cfg_rebuild", "cfg_helpers"}
=============================================================================

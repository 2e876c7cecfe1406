------------------------------- MODULE Exports ------------------------------
EXTENDS Dirs

ExpBad == [ok |-> FALSE]
\* an image without exports leaves the caller's (new) information as it is
NoExpInfo == [ch |-> Zeros(4), ts |-> Zeros(4), maj |-> <<0, 0>>, min |-> <<0, 0>>, name |-> <<>>, base |-> Zeros(4), nf |-> Zeros(4), nn |-> Zeros(4), rf |-> Zeros(4), rn |-> Zeros(4), ro |-> Zeros(4)]
\* the export table the format defines: [ok, info, funcs]; wantInfo: the library name is needed too
ExportTable(img, wantInfo) ==
    LET dr == DirRva(img, 0)
        drw == DirRvaW(img, 0)
        dsw == DirSizeW(img, 0)
        H == RdV(img, dr, 40)
        h == H.b
        nm == StrAt(img, U32(h, 12))
        nf == U32(h, 20)
        nn == U32(h, 24)
        fA == U32(h, 28)
        nA == U32(h, 32)
        oA == U32(h, 36)
        info == [ch |-> Raw(h, 0, 4), ts |-> Raw(h, 4, 4), maj |-> Raw(h, 8, 2), min |-> Raw(h, 10, 2), name |-> nm.s, base |-> Raw(h, 16, 4),
                 nf |-> Raw(h, 20, 4), nn |-> Raw(h, 24, 4), rf |-> Raw(h, 28, 4), rn |-> Raw(h, 32, 4), ro |-> Raw(h, 36, 4)]
    IN IF ~DirExists(img, 0) THEN [ok |-> TRUE, info |-> NoExpInfo, funcs |-> <<>>]
       ELSE IF RemV(img, dr) < 40 \/ ~H.ok THEN ExpBad
       ELSE IF wantInfo /\ ~nm.ok THEN ExpBad
       ELSE IF WIsZero(Raw(h, 20, 4)) THEN [ok |-> TRUE, info |-> info, funcs |-> <<>>]
       ELSE IF WLt(Raw(h, 20, 4), Raw(h, 24, 4)) \/ (oA = 0) # (nA = 0) \/ fA = 0 \/ WCarry(drw, dsw) THEN ExpBad
       ELSE IF nf >= 65536 \/ RemV(img, fA) < 4 * nf THEN ExpBad
       ELSE IF WCarry(Raw(h, 36, 4), LE4(4 * nf)) THEN ExpBad
       ELSE IF nA # 0 /\ nn # 0 /\ (RemV(img, oA) < 2 * nn \/ RemV(img, nA) < 4 * nn) THEN ExpBad
       ELSE LET ft == RdV(img, fA, 4 * nf)
                ot == RdV(img, oA, 2 * nn)
                nt == RdV(img, nA, 4 * nn)
                base == U32(h, 16)
                lim == WAdd(drw, dsw)
                isF(w) == ~WLt(w, WAdd(drw, <<4, 0, 0, 0>>)) /\ WLt(w, lim)
                one(o) ==  \* function at table index o
                    LET w == Raw(ft.b, 4 * o, 4)
                        K == {i \in 0..(nn - 1) : U16(ot.b, 2 * i) = o}
                        ns == IF K = {} THEN [ok |-> TRUE, s |-> <<>>] ELSE StrAt(img, U32(nt.b, 4 * SetMin(K)))
                        fs == IF isF(w) THEN StrAt(img, U32(w, 0)) ELSE [ok |-> TRUE, s |-> <<>>]
                    IN [ok |-> ns.ok /\ fs.ok /\ base + o <= 65535,
                        f |-> [ord |-> (base + o) % 65536, rva |-> w, name |-> ns.s, hn |-> ns.s # <<>>, no |-> IF ns.s # <<>> THEN o ELSE 0,
                               fwd |-> fs.s, isf |-> fs.s # <<>>]]
                idx == SelectSeq([o \in 1..nf |-> o - 1], LAMBDA o : ~WIsZero(Raw(ft.b, 4 * o, 4)))
                all == [k \in 1..Len(idx) |-> one(idx[k])]
            IN IF ~ft.ok \/ (nn > 0 /\ (~ot.ok \/ ~nt.ok)) THEN ExpBad
               ELSE IF \E k \in 1..Len(all) : ~all[k].ok THEN ExpBad
               ELSE [ok |-> TRUE, info |-> info, funcs |-> [k \in 1..Len(all) |-> all[k].f]]

ExpReadStep(env, e) ==
    LET wi == Opt(e, "info_wanted", TRUE)
        t == ExportTable(Im(env, e), wi)
    IN Res(env, ReadBad(e, t.ok, ListBad("exported functions", e.funcs, t.funcs) \cup (IF wi THEN EqBad("export information", e.info, t.info) ELSE {})))

\* --- rebuilding ---------------------------------------------------------------
FName(f) == Opt(f, "name", <<>>)
FFwd(f) == Opt(f, "fwd", <<>>)
FNamed(f) == FName(f) # <<>>
FFwded(f) == FFwd(f) # <<>>
FRva(f) == IF Has(f, "rva") THEN SubSeq(f.rva, 1, 4) ELSE <<0, 0, 0, 0>>
\* what a rebuild is asked to do: violated conditions, place, size, header values, the functions in the order of the table
ExpPlan(img, e) ==
    LET F == e.funcs
        pos == AlignUp(Opt(e, "off", 0), 4)
        ords == {F[i].ord : i \in 1..Len(F)}
        named == SelectSeq(F, FNamed)
        dupO == \E i \in 1..Len(F), j \in 1..Len(F) : i < j /\ F[i].ord = F[j].ord
        dupN == \E i \in 1..Len(named), j \in 1..Len(named) : i < j /\ named[i].name = named[j].name
        base == IF F = <<>> THEN (IF Has(e.info, "base") THEN SubSeq(e.info.base, 1, 4) ELSE <<0, 0, 0, 0>>) ELSE LE4(SetMin(ords))
        nf == IF F = <<>> THEN 0 ELSE SetMax(ords) - SetMin(ords) + 1
        nn == Len(named)
        needed == 40 + Len(Opt(e.info, "name", <<>>)) + 1 + SumLen(named, LAMBDA f : Len(f.name) + 1 + 2 + 4)
                  + SumLen(SelectSeq(F, FFwded), LAMBDA f : Len(f.fwd) + 1) + 4 * nf
        i == Tgt(e)
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE (IF dupO THEN {"duplicate_exported_function_ordinal"} ELSE {}) \cup (IF dupN THEN {"duplicate_exported_function_name"} ELSE {})
                  \cup (IF NoRoom(img, i, pos + needed) THEN {"insufficient_space"} ELSE {})
        rva == IF i = 0 THEN 0 ELSE SecVa(img, i) + pos
        byOrd == SortSeq(F, LAMBDA a, b : a.ord < b.ord)
        \* functions with a zero address do not appear in the table
        live == SelectSeq(byOrd, LAMBDA f : FFwded(f) \/ ~WIsZero(FRva(f)))
        want == [k \in 1..Len(live) |-> LET f == live[k]  r == FRva(f)  IN
                    [ord |-> f.ord, rva |-> IF FFwded(f) THEN <<>> ELSE r, name |-> FName(f), hn |-> FNamed(f), no |-> IF FNamed(f) THEN f.ord - SetMin(ords) ELSE 0,
                     fwd |-> FFwd(f), isf |-> FFwded(f)]]
        W(k, d) == IF Has(e.info, k) THEN SubSeq(e.info[k], 1, Len(d)) ELSE d
        winfo == [ch |-> W("ch", <<0, 0, 0, 0>>), ts |-> W("ts", <<0, 0, 0, 0>>), maj |-> W("maj", <<0, 0>>), min |-> W("min", <<0, 0>>), name |-> Opt(e.info, "name", <<>>),
                  base |-> base, nf |-> LE4(nf), nn |-> LE4(nn)]
    IN [X |-> X, i |-> i, pos |-> pos, rva |-> rva, size |-> needed, nf |-> nf, nn |-> nn, byOrd |-> byOrd, want |-> want, info |-> winfo]
ExpRebuildStep(env, e) ==
    LET img == Im(env, e)
        P == ExpPlan(img, e)
        i == P.i  pos == P.pos  needed == P.size  rva == P.rva  nf == P.nf  nn == P.nn
        E0 == Recalculated(WrittenAs(img, i, pos, needed, e.st), i, Opt(e, "strip", TRUE))
        E == IF Opt(e, "save", TRUE) THEN SetDir(E0, 0, rva, needed) ELSE E0
        D == [rva |-> rva, size |-> needed]
        t == ExportTable(SetDir(e.st, 0, rva, needed), TRUE)
        got == [k \in 1..Len(t.funcs) |-> [t.funcs[k] EXCEPT !.rva = IF t.funcs[k].isf THEN <<>> ELSE @]]
        h == RdV(e.st, rva, 40).b
        nameTab == [k \in 1..nn |-> StrAt(e.st, U32(RdV(e.st, U32(h, 32) + 4 * (k - 1), 4).b, 0)).s]
        names == SortSeq(SelectSeq(P.byOrd, FNamed), LAMBDA a, b : SeqLt(a.name, b.name))
        content ==
            IF ~t.ok THEN {"the rebuilt export directory is malformed"}
            ELSE ListBad("rebuilt functions", got, P.want)
                 \cup EqBad("rebuilt export information", [k \in DOMAIN P.info |-> t.info[k]], P.info)
                 \cup (IF Inside(D, U32(h, 12), Len(t.info.name) + 1) /\ (nf = 0 \/ Inside(D, U32(h, 28), 4 * nf)) /\ (nn = 0 \/ (Inside(D, U32(h, 32), 4 * nn) /\ Inside(D, U32(h, 36), 2 * nn))) THEN {} ELSE {"export tables outside the directory"})
                 \cup (IF \E k \in 1..nn : ~Inside(D, U32(RdV(e.st, U32(h, 32) + 4 * (k - 1), 4).b, 0), Len(nameTab[k]) + 1) THEN {"export names outside the directory"} ELSE {})
                 \cup (IF \E k \in 1..(nn - 1) : ~SeqLt(nameTab[k], nameTab[k + 1]) THEN {"export names are not sorted"} ELSE {})
                 \cup (IF \E k \in 1..Len(t.funcs) : t.funcs[k].isf /\ ~Inside(D, U32(t.funcs[k].rva, 0), Len(t.funcs[k].fwd) + 1) THEN {"forwarder names outside the directory"} ELSE {})
                 \* functions with a zero address cannot be seen in the list; the name table has them all the same
                 \cup (IF \A k \in 1..nn : nameTab[k] = names[k].name /\ U16(RdV(e.st, U32(h, 36) + 2 * (k - 1), 2).b, 0) = names[k].ord - P.byOrd[1].ord THEN {} ELSE {"export name table"})
    IN RebuildOutcome(env, e, P.X, rva, needed, E, content)

ExpHelpersStep(env, e) ==
    LET F == e.funcs  ords == {F[i].ord : i \in 1..Len(F)} IN
    Res(env, XRes(e, "none", EqBad("export helpers", <<e.min, e.max, e.hasname, e.hasord>>,
        <<IF F = <<>> THEN 0 ELSE SetMin(ords), IF F = <<>> THEN 0 ELSE SetMax(ords), \E i \in 1..Len(F) : FNamed(F[i]) /\ F[i].name = e.name, e.ord \in ords>>)))

ExpStep(env, e) == CASE e.op = "exp_read" -> ExpReadStep(env, e)
                     [] e.op = "exp_rebuild" -> ExpRebuildStep(env, e)
                     [] e.op = "exp_helpers" -> ExpHelpersStep(env, e)
ExpOpNames == {"exp_read", "exp_rebuild", "exp_helpers"}
=============================================================================

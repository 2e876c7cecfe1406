--------------------------------- MODULE Tls --------------------------------
EXTENDS Dirs

TlsBad == [ok |-> FALSE]
TlsCbs(img, p) == LET W == WordsAt(img, p, WordN(img.fmt), TRUE, <<>>) IN
    IF ~W.ok THEN TlsBad ELSE [ok |-> TRUE, v |-> Strict([k \in 1..Len(W.v) |-> VaToRva(img, W.v[k], FALSE).w])]
TlsTable(img) ==
    LET n == WordN(img.fmt)
        S == RdV(img, DirRva(img, 9), 4 * n + 8)
        W(k) == Raw(S.b, n * k, n)
        conv(w) == VaToRva(img, w, TRUE)
        unconv == W(0) = W(1) /\ conv(W(1)).exc # "none"
        s == IF unconv THEN Zeros(n) ELSE W(0)
        e == IF unconv THEN Zeros(n) ELSE W(1)
        all == {w \in {s, e, W(2), W(3)} : ~WIsZero(w)}
        rvaOf(w) == IF WIsZero(w) THEN Zeros(4) ELSE conv(w).w
        size == ValSat(WSub(e, s))
        C == IF WIsZero(rvaOf(W(3))) THEN [ok |-> TRUE, v |-> <<>>] ELSE TlsCbs(img, U32(rvaOf(W(3)), 0))
        D == IF WIsZero(s) \/ s = e THEN [ok |-> TRUE, b |-> <<>>] ELSE RdV(img, U32(rvaOf(s), 0), size)
    IN IF ~HasList(img)[8] \/ ~S.ok THEN TlsBad
       ELSE IF \E w \in all : conv(w).exc # "none" THEN TlsBad
       ELSE IF ~WIsZero(s) /\ RemV(img, U32(rvaOf(s), 0)) < size THEN TlsBad
       ELSE IF ~D.ok THEN TlsBad
       ELSE IF ~C.ok THEN TlsBad
       ELSE [ok |-> TRUE, t |-> [start |-> rvaOf(s), end |-> rvaOf(e), index |-> rvaOf(W(2)), cb |-> rvaOf(W(3)), zf |-> Raw(S.b, 4 * n, 4), ch |-> Raw(S.b, 4 * n + 4, 4),
                                 data |-> D.b, cbs |-> C.v]]

\* --- rebuilding ---------------------------------------------------------------
W4o(b, k) == IF Has(b, k) THEN SubSeq(b[k], 1, 4) ELSE Zeros(4)
W4s(q) == [k \in 1..Len(q) |-> SubSeq(q[k], 1, 4)]
QTls(q) == [start |-> W4o(q, "start"), end |-> W4o(q, "end"), index |-> W4o(q, "index"), cb |-> W4o(q, "cb"), zf |-> W4o(q, "zf"), ch |-> W4o(q, "ch"), data |-> Opt(q, "data", <<>>),
            cbs |-> W4s(Opt(q, "cbs", <<>>))]
RvaToVaW(img, rva) == IF img.fmt = 32 THEN RvaToVa32(img, rva) ELSE [exc |-> "none", w |-> RvaToVa64(img, rva)]
\* patch the raw bytes at rva, as far as they exist (rva: saturated)
PatchAt(img, rva, b) ==
    IF rva < Len(img.hdr) THEN [img EXCEPT !.hdr = Patch(img.hdr, rva, b)]
    ELSE LET i == SecIdx(Lay(img), rva) IN IF i = 0 THEN img ELSE [img EXCEPT !.secs[i].d = Patch(@, rva - SecVa(img, i), b)]
Grown(img, rva, size, kind) ==  \* the last section is extended to hold size bytes at rva
    LET L == Lay(img)  i == IF rva < Len(img.hdr) THEN 0 ELSE SecIdx(L, rva) IN
    IF i = 0 \/ i # Len(img.secs) THEN img ELSE LET r == Expand(L, i, L.secs[i], rva, size, kind) IN UnLay(img, r.L, [h |-> BlankHdr, d |-> <<>>])
TlsPlan(img, e) ==
    LET i == Tgt(e)
        q == QTls(e.tls)
        n == WordN(img.fmt)
        pos == AlignUp(Opt(e, "off", 0), n)
        size == 4 * n + 8
        L == Lay(img)
        last == Len(img.secs)
        dlen == U32(WSub(q.end, q.start), 0)
        start == U32(q.start, 0)
        cb == U32(q.cb, 0)
        wd == Opt(e, "wdata", TRUE) /\ ~WIsZero(q.start) /\ q.start # q.end
        wc == Opt(e, "wcb", TRUE) /\ ~WIsZero(q.cb)
        clen == n * (Len(q.cbs) + 1)
        where(rva) == IF rva < Len(img.hdr) THEN 0 ELSE LET k == SecIdx(L, rva) IN IF k = 0 THEN -1 ELSE k
        \* raw bytes behind rva once the structure is placed
        rawRem(rva) == LET k == where(rva) IN
            IF k = i THEN Max2(0, Max2(Len(img.secs[i].d), pos + size) - (rva - SecVa(img, i))) ELSE RemR(img, rva)
        dataX == IF where(start) = -1 THEN {"no_section_found"}
                 ELSE IF where(start) # last /\ rawRem(start) < dlen /\ RemV(img, start) < dlen THEN {"insufficient_space"} ELSE {}
        cbX == IF where(cb) = -1 THEN {"no_section_found"}
               ELSE IF where(cb) = last THEN (IF rawRem(cb) >= clen /\ RemV(img, cb) < clen THEN {"insufficient_space"} ELSE {})
               ELSE IF rawRem(cb) < clen - n \/ RemV(img, cb) < clen THEN {"insufficient_space"} ELSE {}
        vas == <<q.start, q.end, q.index, q.cb>>
        conv == {vas[k] : k \in {k \in 1..4 : ~WIsZero(vas[k])}} \cup (IF wc THEN {q.cbs[k] : k \in 1..Len(q.cbs)} ELSE {})
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE (IF NoRoom(img, i, pos + size) THEN {"insufficient_space"} ELSE {})
                  \cup (IF WLt(q.end, q.start) \/ WIsZero(q.index) THEN {"incorrect_tls_directory"}
                        ELSE (IF wd THEN dataX ELSE {}) \cup (IF \E w \in conv : RvaToVaW(img, w).exc # "none" THEN {"incorrect_address_conversion"} ELSE {}))
                  \cup (IF wc THEN cbX ELSE {})
        va(w) == IF WIsZero(w) THEN Zeros(n) ELSE RvaToVaW(img, w).w
        bytes == va(q.start) \o va(q.end) \o va(q.index) \o va(q.cb) \o (IF WIsZero(q.start) THEN Zeros(4) ELSE q.zf) \o q.ch
        E0 == [img EXCEPT !.secs[i].d = Patch(IF Len(@) < pos + size THEN Resize(@, pos + size) ELSE @, pos, bytes)]
        E1 == IF ~wd THEN E0
              ELSE LET g == Grown(E0, start, dlen, Opt(e, "expand", "raw")) IN PatchAt(g, start, Take(q.data, Min2(dlen, RemR(g, start))))
        E2 == IF ~wc THEN E1
              ELSE LET g == Grown(E1, cb, clen, "raw") IN PatchAt(g, cb, Take(FlattenSeq([k \in 1..Len(q.cbs) |-> RvaToVaW(img, q.cbs[k]).w]) \o Zeros(n), RemR(g, cb)))
        rva == SecVa(img, i) + pos
        E3 == Recalculated(E2, i, Opt(e, "strip", TRUE))
        E == IF Opt(e, "save", TRUE) THEN SetDir(E3, 9, rva, size) ELSE E3
    IN [X |-> X, rva |-> IF X # {} THEN 0 ELSE rva, size |-> size, E |-> IF X # {} THEN img ELSE E]
TlsRebuild(env, e) == LET P == TlsPlan(Im(env, e), e) IN RebuildOutcome(env, e, P.X, P.rva, P.size, P.E, {})

TlsHelpers(env, e) ==
    LET q == QTls(e.tls)
        r == [q EXCEPT !.end = WAdd(q.start, LE4(Len(q.data)))]
        r2 == [r EXCEPT !.cbs = <<>>]
    IN Res(env, XRes(e, "none", EqBad("TLS information", e.r, r) \cup EqBad("TLS information without callbacks", e.r2, r2) \cup EqBad("TLS information with one callback", e.r3, [r2 EXCEPT !.cbs = <<<<7, 0, 0, 0>>>>])))
TlsStep(env, e) ==
    CASE e.op = "tls_read" -> LET t == TlsTable(Im(env, e)) IN Res(env, ReadBad(e, t.ok, EqBad("TLS information", e.tls, t.t)))
      [] e.op = "tls_rebuild" -> TlsRebuild(env, e)
      [] e.op = "tls_helpers" -> TlsHelpers(env, e)
TlsOpNames == {"tls_read", "tls_rebuild", "tls_helpers"}
=============================================================================

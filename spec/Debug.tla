-------------------------------- MODULE Debug --------------------------------
(* Debug, exception and .NET directories.                                   *)
EXTENDS Tables

\* --- raw debug data kept when a file is loaded -----------------------------------
oType == 12
DbgEnt(img, k) == RdV(img, DirRva(img, 6) + 28 * k, 28)
\* entries of the directory: up to its end or to an entry without file data.  [ok, n]: ok: all of them are inside the image
RECURSIVE DbgCount(_, _)
DbgCount(img, k) ==
    IF 28 * k >= DirSize(img, 6) THEN [ok |-> TRUE, n |-> k]
    ELSE LET r == DbgEnt(img, k) IN
         IF ~r.ok THEN [ok |-> FALSE, n |-> k] ELSE IF WIsZero(Raw(r.b, 24, 4)) THEN [ok |-> TRUE, n |-> k] ELSE DbgCount(img, k + 1)
DbgSane(img) == ~WCarry(Raw(img.nt, oDir(img.fmt, 6), 4), Raw(img.nt, oDir(img.fmt, 6) + 4, 4))
DbgN(img) == IF ~DbgSane(img) THEN [ok |-> FALSE, n |-> 0] ELSE DbgCount(img, 0)
DbgHasData(b) == U32(b, oType) \in {1, 2, 4} /\ ~WIsZero(Raw(b, 16, 4))
DbgAt(b, mem) == IF mem THEN U32(b, 20) ELSE U32(b, 24)   \* an image in memory layout has the data at its address
DbgThere(f, b, mem) == ~(mem /\ WIsZero(Raw(b, 20, 4))) /\ DbgAt(b, mem) + U32(b, 16) <= Len(f)
\* data kept after loading f as img: never other bytes than the file's; nothing before the first unreadable entry may be missing
DbgLoadBad(f, img, mem, dbg) ==
    LET N == IF DirExists(img, 6) THEN DbgN(img).n ELSE 0
        B(k) == DbgEnt(img, k - 1).b
        H == {k \in 1..N : DbgHasData(B(k))}
        R == {k \in H : DbgThere(f, B(k), mem)}
        lim == IF R = H THEN N ELSE SetMin(H \ R)
        first(k) == \A j \in R : j < k => Raw(B(j), 24, 4) # Raw(B(k), 24, 4)
        P == {dbg[i].p : i \in 1..Len(dbg)}
        Of(p) == SetMin({i \in 1..Len(dbg) : dbg[i].p = p})
        Exp(k) == Raw(f, DbgAt(B(k), mem), U32(B(k), 16))
    IN UNION {IF Raw(B(k), 24, 4) \notin P THEN {"debug data not read"} ELSE IF first(k) /\ dbg[Of(Raw(B(k), 24, 4))].d # Exp(k) THEN {"debug data"} ELSE {} : k \in {j \in R : j < lim \/ R = H}}
       \cup (IF \E i \in 1..Len(dbg) : \A k \in R : Raw(B(k), 24, 4) # dbg[i].p \/ dbg[i].d # Exp(k) THEN {"debug data of no entry"} ELSE {})

\* --- raw data by kind: [adv, info], or [adv |-> -1] when malformed --------------
Mal == [adv |-> -1, info |-> EmptyMap]
NoAdv == [adv |-> 0, info |-> EmptyMap]
Sig(d, s) == Len(d) >= 4 /\ Take(d, 4) = s
CodeView(d) ==
    IF Len(d) < 8 THEN Mal
    ELSE IF Sig(d, <<82, 83, 68, 83>>) THEN    \* RSDS
        LET s == CStrIn(d, 24, Len(d) - 24) IN
        IF Len(d) < 25 \/ ~s.ok THEN Mal ELSE [adv |-> 1, info |-> [guid |-> Raw(d, 4, 16), age |-> Raw(d, 20, 4), s |-> s.s]]
    ELSE IF Sig(d, <<78, 66, 49, 48>>) THEN    \* NB10
        LET s == CStrIn(d, 16, Len(d) - 16) IN
        IF Len(d) < 17 \/ ~s.ok THEN Mal ELSE [adv |-> 2, info |-> [sig |-> Raw(d, 8, 4), age |-> Raw(d, 12, 4), s |-> s.s]]
    ELSE [adv |-> IF Sig(d, <<78, 66, 48, 57>>) THEN 5 ELSE IF Sig(d, <<78, 66, 49, 49>>) THEN 6 ELSE IF Sig(d, <<78, 66, 48, 53>>) THEN 7 ELSE 0, info |-> EmptyMap]
Misc(d) ==
    LET n == U32(d, 4)  uni == d[9] # 0
        t == SubSeq(d, 13, n)
        u == Units16(t, 0, (n - 12) \div 2)
    IN IF Len(d) < 13 THEN Mal
       ELSE IF n < 12 \/ n > Len(d) THEN Mal
       ELSE IF uni /\ HasSurr(u) THEN Mal
       ELSE [adv |-> 3, info |-> [dt |-> Raw(d, 0, 4), exe |-> Raw(d, 0, 4) = LE4(1), uni |-> uni, s |-> Trim(IF uni THEN u ELSE t)]]
\* the symbols from number i on: file names, functions, and static symbols of the first section; auxiliary records belong to their symbol
RECURSIVE CoffSyms(_, _, _, _, _)
CoffSyms(d, first, n, i, acc) ==
    IF i >= n THEN [ok |-> TRUE, v |-> acc]
    ELSE LET o == first + 18 * i
             cls == d[o + 17]  aux == d[o + 18]  type == U16(d, o + 14)  sec == U16(d, o + 12)
             tab == first + 18 * n
             long == U32(d, o + 4)
             str == CStrIn(d, tab + long, Len(d) - tab - long)
             named == ~WIsZero(Raw(d, o, 4))
             nm == IF named THEN CStrIn(Raw(d, o, 8) \o <<0>>, 0, 9).s ELSE str.s
             fun == \/ cls = 3 /\ aux = 0 /\ sec = 1
                    \/ cls = 2 /\ (type \div 16) % 4 = 2 /\ sec > 0 /\ sec < 32768
         IN IF i + aux >= n THEN [ok |-> FALSE, v |-> <<>>]
            ELSE IF cls = 103 THEN CoffSyms(d, first, n, i + 1 + aux, Append(acc, [i |-> i, cls |-> cls, type |-> type, file |-> TRUE, s |-> Trim(Raw(d, o + 18, 18 * aux))]))
            ELSE IF ~fun THEN CoffSyms(d, first, n, i + 1 + aux, acc)
            ELSE IF ~named /\ (tab + long >= Len(d) \/ ~str.ok) THEN [ok |-> FALSE, v |-> <<>>]
            ELSE CoffSyms(d, first, n, i + 1 + aux, Append(acc, [i |-> i, cls |-> cls, type |-> type, file |-> FALSE, sec |-> sec, rva |-> Raw(d, o + 8, 4), s |-> nm]))
Coff(d) ==
    LET n == U32(d, 0)  first == U32(d, 4)  S == CoffSyms(d, first, n, 0, <<>>)
    IN IF Len(d) < 32 THEN Mal
       ELSE IF n > 1000000 \/ first > Len(d) THEN Mal
       ELSE IF 18 * n + first > Len(d) THEN Mal
       ELSE IF ~S.ok THEN Mal
       ELSE [adv |-> 4, info |-> [h |-> [k \in 1..8 |-> Raw(d, 4 * (k - 1), 4)], syms |-> S.v]]

DbgType(t) == IF WLt(LE4(11), t) THEN 0 ELSE LET n == U32(t, 0) IN n   \* known types are 1..11
\* i: which of the data kept for this file position (0: none)
DbgData(img, b) == LET S == {i \in 1..Len(img.dbg) : img.dbg[i].p = Raw(b, 24, 4)} IN IF S = {} THEN {0} ELSE S
DbgRec(img, b, i) ==
    LET d == img.dbg[i].d
        A == IF i = 0 THEN NoAdv ELSE CASE Raw(b, oType, 4) = LE4(1) -> Coff(d) [] Raw(b, oType, 4) = LE4(2) -> CodeView(d) [] Raw(b, oType, 4) = LE4(4) -> Misc(d) [] OTHER -> NoAdv
    IN [h |-> <<Raw(b, 0, 4), Raw(b, 4, 4), LE4(U16(b, 8)), LE4(U16(b, 10)), Raw(b, 12, 4), Raw(b, 16, 4), Raw(b, 20, 4), Raw(b, 24, 4)>>,
        ty |-> DbgType(Raw(b, 12, 4)), adv |-> A.adv, info |-> A.info, only |-> TRUE]
\* a record whose raw data is malformed may be reported without advanced information
RecBad(got, exp) == IF exp.adv >= 0 THEN (IF got = exp THEN {} ELSE {"debug record " \o ToString(got) \o " instead of " \o ToString(exp)})
                    ELSE IF got.h = exp.h /\ got.ty = exp.ty /\ got.adv = 0 THEN {} ELSE {"malformed debug data reported"}
DbgReadBad(img, e) ==
    LET C == DbgN(img)
        E == [k \in 1..C.n |-> LET b == DbgEnt(img, k - 1).b IN {DbgRec(img, b, i) : i \in DbgData(img, b)}]
        mal == \E k \in 1..C.n : \E x \in E[k] : x.adv < 0
        odd == DirSize(img, 6) % 28 # 0
    IN IF ~DirExists(img, 6) THEN XRes(e, "none", EqBad("debug records", e.v, <<>>))
       ELSE IF ~C.ok /\ ~odd THEN ReadBad(e, FALSE, {})
       ELSE IF e.exc # "none" THEN (IF (mal \/ odd \/ DirSize(img, 6) = 0) /\ LibExc(e.exc) THEN {} ELSE {"outcome " \o e.exc})
       ELSE (IF Len(e.v) # C.n /\ ~(odd /\ Len(e.v) = C.n - 1) THEN {"number of debug records"} ELSE UNION {IF \E x \in E[k] : RecBad(e.v[k], x) = {} THEN {} ELSE UNION {RecBad(e.v[k], x) : x \in E[k]} : k \in 1..Len(e.v)})

\* --- exception directory -------------------------------------------------------------
RECURSIVE ExcList(_, _, _)
ExcList(img, k, acc) ==
    IF 12 * (k + 1) > DirSize(img, 3) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET r == RdV(img, DirRva(img, 3) + 12 * k, 12)
             x == RdV(img, U32(r.b, 8), 4)
             u == x.b
             fl == u[1] \div 8
         IN IF ~r.ok THEN [ok |-> FALSE, v |-> acc]
            ELSE IF WIsZero(Raw(r.b, 0, 4)) THEN [ok |-> TRUE, v |-> acc]
            ELSE IF WLt(Raw(r.b, 4, 4), Raw(r.b, 0, 4)) THEN [ok |-> FALSE, v |-> acc]
            ELSE IF ~x.ok THEN [ok |-> FALSE, v |-> acc]
            ELSE ExcList(img, k + 1, Append(acc, [a |-> <<Raw(r.b, 0, 4), Raw(r.b, 4, 4), Raw(r.b, 8, 4)>>,
                                                  u |-> <<u[1] % 8, fl, u[2], u[3], u[4] % 16, u[4] \div 16>>,
                                                  f |-> <<fl % 2 = 1, (fl \div 2) % 2 = 1, (fl \div 4) % 2 = 1, u[4] % 16 # 0>>]))
ExcBad(img, e) ==
    LET R == ExcList(img, 0, <<>>) IN
    IF ~DirExists(img, 3) THEN XRes(e, "none", EqBad("exception records", e.v, <<>>))
    ELSE IF DirRva(img, 3) % 4 # 0 \/ ~R.ok THEN ReadBad(e, FALSE, {})
    ELSE IF DirSize(img, 3) % 12 # 0 /\ LibExc(e.exc) THEN {}
    ELSE IF DirSize(img, 3) < 12 /\ LibExc(e.exc) THEN {}
    ELSE IF e.exc # "none" THEN {"reading a well-formed directory: outcome " \o e.exc}
    ELSE IF DirSize(img, 3) % 12 # 0 THEN (IF Len(e.v) >= Len(R.v) /\ SubSeq(e.v, 1, Len(R.v)) = R.v THEN {} ELSE ListBad("exception records", e.v, R.v))
    ELSE ListBad("exception records", e.v, R.v)

\* --- .NET header -----------------------------------------------------------------------
NetBad(img, e) ==
    LET r == RdV(img, DirRva(img, 14), 72)  b == r.b  fl == b[17] IN
    IF ~DirExists(img, 14) THEN XBad(e, "image_does_not_have_managed_code")
    ELSE ReadBad(e, r.ok, IF e.exc # "none" THEN {} ELSE
         EqBad("runtime version", e.ver, <<U16(b, 4), U16(b, 6)>>)
         \cup ListBad("CLI header", e.w, [k \in 1..16 |-> Raw(b, 4 + 4 * k, 4)])
         \cup EqBad("CLI flags", e.f, <<(fl \div 16) % 2 = 1, (fl \div 2) % 2 = 1, (fl \div 4) % 2 = 1, fl % 2 = 1>>))

\* loading a file, raw debug data included (r: what the rest of loading amounts to)
LoadDbg(r, env, e) ==
    IF r.bad # {} \/ e.exc # "none" \/ Opt(e, "how", "factory") = "type" THEN r
    ELSE Res(r.env, IF Opt(e, "dbg", TRUE) THEN DbgLoadBad(FileOf(env, e), e.st, Opt(e, "mem", FALSE), e.st.dbg) ELSE EqBad("debug data", e.st.dbg, <<>>))
\* lists of debug records are values.  Effect of an operation on them: [ok: positions in range, recs]
RecsOf(rc, n) == IF n \in DOMAIN rc THEN rc[n] ELSE <<>>
RecOps == {"dbg_copy", "dbg_move", "dbg_assign", "dbg_make", "dbg_set", "dbg_push", "dbg_del", "dbg_swap", "dbg_drop"}
RecOp(rc, e) ==
    LET s == RecsOf(rc, Opt(e, "from", 0))  t == RecsOf(rc, Opt(e, "to", 0))
        to(l) == [ok |-> TRUE, recs |-> Put(rc, e.to, l)]
    IN CASE e.op \in {"dbg_copy", "dbg_move"} -> to(s)
         [] e.op = "dbg_drop" -> [ok |-> TRUE, recs |-> Put(rc, e.from, <<>>)]
         [] e.op = "dbg_make" -> to(Append(t, e.rec))
         [] e.op = "dbg_assign" -> IF e.i < Len(t) /\ e.j < Len(s) THEN to([t EXCEPT ![e.i + 1] = s[e.j + 1]]) ELSE [ok |-> FALSE, recs |-> rc]
         [] e.op = "dbg_set" -> IF e.i < Len(t) THEN to([t EXCEPT ![e.i + 1] = [@ EXCEPT !.adv = e.rec.adv, !.info = e.rec.info]]) ELSE [ok |-> FALSE, recs |-> rc]
         [] e.op = "dbg_push" -> IF e.j < Len(s) THEN to(<<s[e.j + 1]>> \o t) ELSE [ok |-> FALSE, recs |-> rc]
         [] e.op = "dbg_del" -> IF e.i < Len(t) THEN to(DelAt(t, e.i + 1)) ELSE [ok |-> FALSE, recs |-> rc]
         [] e.op = "dbg_swap" -> IF e.i < Len(t) /\ e.j < Len(s)
                                 THEN LET r1 == Put(rc, e.to, [t EXCEPT ![e.i + 1] = s[e.j + 1]]) IN [ok |-> TRUE, recs |-> Put(r1, e.from, [RecsOf(r1, e.from) EXCEPT ![e.j + 1] = t[e.i + 1]])]
                                 ELSE [ok |-> FALSE, recs |-> rc]

DbgStep(env, e) ==
    LET img == Im(env, e)
        \* reading leaves the image alone
        quiet(b) == Res(env, b)
    IN CASE e.op = "dbg_read" -> [Res(env, DbgReadBad(img, e) \cup EqBad("has debug", e.has, DirExists(img, 6)))
                                  EXCEPT !.env = IF Has(e, "keep") /\ e.exc = "none" THEN [env EXCEPT !.recs = Put(env.recs, e.keep, e.v)] ELSE env]
      [] e.op \in RecOps -> LET R == RecOp(env.recs, e) IN Res([env EXCEPT !.recs = R.recs], XRes(e, "none", IF Has(e, "ok") THEN EqBad("in range", e.ok, R.ok) ELSE {}))
      [] e.op = "dbg_list" -> Res(env, XRes(e, "none", ListBad("debug records", e.v, RecsOf(env.recs, e.from))))
      [] e.op = "exc_read" -> quiet(ExcBad(img, e) \cup EqBad("has exceptions", e.has, DirExists(img, 3)))
      [] e.op = "net_read" -> quiet(NetBad(img, e) \cup EqBad("is .NET", e.has, DirExists(img, 14)))
DbgOpNames == RecOps \cup {"dbg_read", "dbg_list", "exc_read", "net_read"}
=============================================================================

------------------------------- MODULE Tables --------------------------------
(* String tables, message tables and bitmaps.                               *)
EXTENDS Version

\* --- string tables: 16 counted strings ----------------------------------------
RECURSIVE StrSlots(_, _, _, _)
StrSlots(b, o, i, acc) ==
    IF i = 16 THEN [ok |-> TRUE, v |-> acc]
    ELSE IF Len(b) < o + 2 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET n == U16(b, o) IN
         IF Len(b) < o + 2 + 2 * n THEN [ok |-> FALSE, v |-> <<>>]
         ELSE LET u == Units16(b, o + 2, n) IN
              IF HasSurr(u) THEN [ok |-> FALSE, v |-> <<>>]
              ELSE StrSlots(b, o + 2 + 2 * n, i + 1, IF n = 0 THEN acc ELSE Append(acc, [i |-> i, s |-> u]))
\* number of string i of table id (a 4-byte word)
StrId(id, i) == (16 * ((U16(id, 0) + 65535) % 65536) + i) % 65536
StrTable(b, id) == LET R == StrSlots(b, 0, 0, <<>>) IN [ok |-> R.ok, v |-> [k \in 1..Len(R.v) |-> [id |-> StrId(id, R.v[k].i), s |-> R.v[k].s]]]

\* --- message tables --------------------------------------------------------------
WInc(w) == WAdd(w, WOne(4))
\* the messages low..high, one after another from offset o; the first text of a number counts
RECURSIVE MsgEntries(_, _, _, _, _)
MsgEntries(b, o, id, high, acc) ==
    IF o + 4 > Len(b) THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET n == U16(b, o)
             uni == U16(b, o + 2) % 2 = 1
             t == SubSeq(b, o + 5, o + n)
             u == Units16(t, 0, (n - 4) \div 2)
             m == InsK(acc, [k \in 1..4 |-> id[5 - k]], [uni |-> uni, s |-> Trim(IF uni THEN u ELSE t)])   \* without trailing zeros
         IN IF n < 4 THEN [ok |-> FALSE, v |-> <<>>]
            ELSE IF o + n > Len(b) THEN [ok |-> FALSE, v |-> <<>>]
            ELSE IF uni /\ n % 2 = 1 THEN [ok |-> FALSE, v |-> <<>>]
            ELSE IF uni /\ HasSurr(u) THEN [ok |-> FALSE, v |-> <<>>]
            ELSE IF id = high THEN [ok |-> TRUE, v |-> m]
            ELSE MsgEntries(b, o + n, WInc(id), high, m)
MsgTable(b) ==
    LET n == U32(b, 0)
        Block(a, i) == LET low == Raw(b, 4 + 12 * (i - 1), 4)  high == Raw(b, 8 + 12 * (i - 1), 4)  o == U32(b, 12 + 12 * (i - 1)) IN
            IF ~a.ok THEN a ELSE IF WLt(high, low) \/ o > Len(b) THEN [ok |-> FALSE, v |-> <<>>] ELSE MsgEntries(b, o, low, high, a.v)
        R == FoldLeft(Block, [ok |-> TRUE, v |-> <<>>], [i \in 1..n |-> i])
    IN IF Len(b) < 4 THEN [ok |-> FALSE, v |-> <<>>]
       ELSE IF n > 1000000 THEN [ok |-> FALSE, v |-> <<>>]
       ELSE IF Len(b) < 4 + 12 * n THEN [ok |-> FALSE, v |-> <<>>]
       ELSE [ok |-> R.ok, v |-> [k \in 1..Len(R.v) |-> [id |-> [j \in 1..4 |-> R.v[k].k[5 - j]], uni |-> R.v[k].v.uni, s |-> R.v[k].v.s]]]

\* --- bitmaps ------------------------------------------------------------------------
\* bytes of the resource before the pixels: info header, colour masks, colour table (a word)
BmpTable(d) == IF ~WIsZero(Raw(d, 32, 4)) THEN LET c == Raw(d, 32, 4)  c2 == WAdd(c, c) IN WAdd(c2, c2)
               ELSE IF U16(d, 14) >= 1 /\ U16(d, 14) <= 8 THEN LE4(4 * (2 ^ U16(d, 14))) ELSE Zeros(4)
BmpMasks(d) == IF U32(d, 0) # 40 THEN 0 ELSE IF Raw(d, 16, 4) = LE4(3) THEN 12 ELSE IF Raw(d, 16, 4) = LE4(6) THEN 16 ELSE 0
BmpBits(d) == WAdd(WAdd(LE4(14 + BmpMasks(d)), Raw(d, 0, 4)), BmpTable(d))
\* an info header of this or a later version, the pixels inside the resource
BmpOk(d) == Len(d) >= 40 /\ U32(d, 0) >= 40 /\ U32(d, 0) <= Len(d) /\ ValSat(BmpBits(d)) <= 14 + Len(d)
BmpFile(d) == <<66, 77>> \o LE4(14 + Len(d)) \o Zeros(4) \o BmpBits(d) \o d

RKey(e, t) == [k \in (DOMAIN e \cap {"n", "id", "lang", "index", "cp", "ts"}) \cup {"t"} |-> IF k = "t" THEN t ELSE e[k]]
ByKey(T, e, t) == IF Has(e, "index") THEN ResByIndex(T, RKey(e, t)) ELSE ResByLang(T, RKey(e, t))
TabStep(env, e) ==
    LET T == Tree(env, e) IN
    CASE e.op = "str_table" -> LET D == ByKey(T, e, 6)  R == StrTable(D.data, e.id) IN
           Res(env, IF D.x # "none" THEN XBad(e, D.x) ELSE ReadBad(e, R.ok, IF e.exc # "none" THEN {} ELSE ListBad("strings", SortSeq(e.v, LAMBDA x, y : x.id < y.id), SortSeq(R.v, LAMBDA x, y : x.id < y.id))))
      [] e.op = "str_get" -> LET k == [f \in (DOMAIN e \cap {"lang", "index"}) \cup {"id"} |-> IF f = "id" THEN LE4(e.sid \div 16 + 1) ELSE e[f]]
                                 D == ByKey(T, k, 6)  R == StrTable(D.data, k.id)  S == {i \in 1..Len(R.v) : R.v[i].id = e.sid} IN
           Res(env, IF D.x # "none" THEN XBad(e, D.x) ELSE IF R.ok /\ S = {} THEN (IF e.exc = "resource_string_not_found" THEN {} ELSE XBad(e, "resource_string_not_found"))
                    ELSE ReadBad(e, R.ok, IF e.exc # "none" THEN {} ELSE EqBad("string", e.v, R.v[SetMin(S)].s)))
      [] e.op = "msg_table" -> LET D == ByKey(T, e, 11)  R == MsgTable(D.data) IN
           Res(env, IF D.x # "none" THEN XBad(e, D.x) ELSE ReadBad(e, R.ok, IF e.exc # "none" THEN {} ELSE ListBad("messages", e.v, R.v)))
      [] e.op = "bmp_add" -> LET A == AddRes(T, RKey(e, 2), Drop(e.file, 14)) IN
           IF Len(e.file) < 14 THEN TreeAfter(env, e, T, "resource_incorrect_bitmap", {}) ELSE TreeAfter(env, e, A.T, A.x, {})
      [] e.op = "bmp_rem" -> LET A == RemRes(T, RKey(e, 2)) IN TreeAfter(env, e, A.T, A.x, IF e.exc = "none" THEN EqBad("removed", e.ret, A.ret) ELSE {})
      [] e.op = "bmp_get" -> LET D == ByKey(T, e, 2)  ok == BmpOk(D.data) IN
           \* of a malformed bitmap, only the stored bytes are promised
           Res(env, IF D.x # "none" THEN XBad(e, D.x)
                    ELSE IF ok THEN (IF e.exc # "none" THEN XBad(e, "none") ELSE ListBad("bitmap file", e.v, BmpFile(D.data)))
                    ELSE IF e.exc = "none" THEN (IF Len(D.data) < 40 THEN {"truncated bitmap accepted"} ELSE EqBad("bitmap data", Drop(e.v, 14), D.data)) ELSE IF LibExc(e.exc) THEN {} ELSE {"outcome " \o e.exc})
TabOpNames == {"str_table", "str_get", "msg_table", "bmp_add", "bmp_rem", "bmp_get"}
=============================================================================

----------------------------- MODULE MC_Tables ------------------------------
(* String tables, message tables and bitmaps: what a writer of these        *)
(* formats stores is what is read, for every small table; every damaged     *)
(* table is either refused or read as what its bytes say.                   *)
EXTENDS Tables, Json
CONSTANTS Depth, Kinds, Sids, Texts, Mids, MTexts, Sizes, Bits, Comps, Useds, Damage

VARIABLES strs, msgs, bmp, hist, kind
vars == <<strs, msgs, bmp, hist, kind>>
View == <<strs, msgs, bmp, kind, Len(hist)>>
TextsA == {<<65>>, <<66, 1040, 67>>}
TextsB == {<<0>>, <<65535, 65>>}
MTextsA == {[uni |-> FALSE, s |-> <<120>>], [uni |-> TRUE, s |-> <<1040, 66>>]}
MTextsB == {[uni |-> FALSE, s |-> <<>>], [uni |-> TRUE, s |-> <<>>], [uni |-> FALSE, s |-> <<1, 0, 255>>]}
MidsA == {LE4(1), LE4(2), LE4(4)}
MidsB == {<<254, 255, 255, 255>>, <<255, 255, 255, 255>>, LE4(0)}
MidsC == {LE4(255), LE4(256), <<0, 0, 0, 192>>}

\* --- writers ---
Tab(sid) == sid \div 16 + 1
\* the table holding the strings of S with number 16 * (t - 1) + i
StrBytes(S, t) == FlattenSeq([i \in 1..16 |-> LET n == 16 * (t - 1) + i - 1 IN IF n \in DOMAIN S THEN LE2(Len(S[n])) \o Bytes16(S[n]) ELSE <<0, 0>>])
RECURSIVE Runs(_, _)
\* consecutive numbers as blocks <<low, high, numbers>>
Runs(q, acc) == IF q = <<>> THEN acc
                ELSE IF acc # <<>> /\ WInc(acc[Len(acc)].high) = q[1] /\ ~WIsZero(q[1]) THEN Runs(Tail(q), [acc EXCEPT ![Len(acc)].high = q[1], ![Len(acc)].ids = Append(@, q[1])])
                ELSE Runs(Tail(q), Append(acc, [low |-> q[1], high |-> q[1], ids |-> <<q[1]>>]))
MsgEnt(x) == LET b == IF x.uni THEN Bytes16(x.s) \o <<0, 0>> ELSE x.s \o <<0>>
                 p == b \o Zeros(AlignUp(Len(b), 4) - Len(b))
             IN LE2(4 + Len(p)) \o (IF x.uni THEN <<1, 0>> ELSE <<0, 0>>) \o p
MsgBytes(M) ==
    LET R == Runs(SetToSortSeq(DOMAIN M, WLt), <<>>)
        n == Len(R)
        body(r) == FlattenSeq([i \in 1..Len(r.ids) |-> MsgEnt(M[r.ids[i]])])
        at(k) == 4 + 12 * n + SumLen(SubSeq(R, 1, k - 1), LAMBDA r : Len(body(r)))
    IN LE4(n) \o FlattenSeq([k \in 1..n |-> R[k].low \o R[k].high \o LE4(at(k))]) \o FlattenSeq([k \in 1..n |-> body(R[k])])
Info(z, bits, comp, used) == LE4(z) \o LE4(3) \o <<254, 255, 255, 255>> \o LE2(1) \o LE2(bits) \o LE4(comp) \o LE4(10) \o LE4(0) \o LE4(0) \o LE4(used) \o LE4(0) \o [i \in 1..z - 40 |-> 100 + i]
PalLen(bits, used) == IF used > 0 THEN 4 * used ELSE IF bits \in 1..8 THEN 4 * 2 ^ bits ELSE 0
MaskLen(z, comp) == IF z # 40 THEN 0 ELSE IF comp = 3 THEN 12 ELSE IF comp = 6 THEN 16 ELSE 0
BmpOf(z, bits, comp, used, px) == LET d == Info(z, bits, comp, used) \o [i \in 1..MaskLen(z, comp) + PalLen(bits, used) |-> i % 251] \o px
                                  IN <<66, 77>> \o LE4(14 + Len(d)) \o Zeros(4) \o LE4(14 + z + MaskLen(z, comp) + PalLen(bits, used)) \o d

Init == strs = EmptyMap /\ msgs = EmptyMap /\ bmp = <<>> /\ hist = <<>> /\ kind \in Kinds
Store(t, id, d) == [op |-> "rm_add", t |-> t, id |-> id, lang |-> LE4(0), data |-> d]
PutStr == /\ kind = "str" /\ \E s \in Sids, x \in Texts :
             /\ strs' = Put(strs, s, x) /\ hist' = Append(hist, Store(6, LE4(Tab(s)), StrBytes(strs', Tab(s))))
          /\ UNCHANGED <<msgs, bmp, kind>>
PutMsg == /\ kind = "msg" /\ \E i \in Mids, x \in MTexts :
             /\ msgs' = Put(msgs, i, x) /\ hist' = Append(hist, Store(11, LE4(1), MsgBytes(msgs')))
          /\ UNCHANGED <<strs, bmp, kind>>
PutBmp == /\ kind = "bmp" /\ \E z \in Sizes, b \in Bits, c \in Comps, u \in Useds :
             /\ bmp' = BmpOf(z, b, c, u, [i \in 1..(b % 5) |-> 7 * i])
             /\ hist' = Append(hist, [op |-> "bmp_add", id |-> LE4(1), lang |-> LE4(0), file |-> bmp'])
          /\ UNCHANGED <<strs, msgs, kind>>
Next == Len(hist) < Depth /\ (PutStr \/ PutMsg \/ PutBmp)
Spec == Init /\ [][Next]_vars

\* every string of every table, and no other
Tabs == {Tab(s) : s \in DOMAIN strs}
Strings == \A t \in Tabs : LET R == StrTable(StrBytes(strs, t), LE4(t)) IN
           /\ R.ok /\ {<<R.v[k].id, R.v[k].s>> : k \in 1..Len(R.v)} = {<<s, strs[s]>> : s \in {s \in DOMAIN strs : Tab(s) = t}}
           /\ Len(R.v) = Cardinality({s \in DOMAIN strs : Tab(s) = t})
Messages == LET R == MsgTable(MsgBytes(msgs)) IN
            /\ R.ok /\ Len(R.v) = Cardinality(DOMAIN msgs)
            /\ {<<R.v[k].id, R.v[k].uni, R.v[k].s>> : k \in 1..Len(R.v)} = {<<i, msgs[i].uni, msgs[i].s>> : i \in DOMAIN msgs}
\* a file becomes a resource and a file again
Bitmap == bmp # <<>> => LET d == Drop(bmp, 14) IN BmpOk(d) /\ BmpFile(d) = bmp
\* what is left of a table that is cut off is refused, and every damaged table is decided about
Data == CASE kind = "str" -> (IF strs = EmptyMap THEN <<>> ELSE StrBytes(strs, SetMin(Tabs))) [] kind = "msg" -> MsgBytes(msgs) [] kind = "bmp" -> Drop(bmp, 14)
Hurt(d, p, x) == [d EXCEPT ![p] = (@ + x) % 256]
Cut == Len(hist) = Depth =>
       \A n \in 0..Len(Data) - 1 : LET d == SubSeq(Data, 1, n) IN
          CASE kind = "str" -> ~StrTable(d, LE4(1)).ok [] kind = "msg" -> ~MsgTable(d).ok [] kind = "bmp" -> (n < Len(Data) - (IF bmp = <<>> THEN 0 ELSE Len(bmp) - ValSat(SubSeq(bmp, 11, 14)))) => ~BmpOk(d)
Total == (Damage # {} /\ Len(hist) = Depth) => \A p \in 1..Len(Data) : \A x \in Damage : LET d == Hurt(Data, p, x) IN
          (CASE kind = "str" -> StrTable(d, LE4(1)).ok [] kind = "msg" -> MsgTable(d).ok [] kind = "bmp" -> (Len(d) >= 40 /\ BmpOk(d))) \in BOOLEAN
Beh == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson([kind |-> kind, calls |-> hist, data |-> Data, sids |-> SetToSeq(Sids), tab |-> IF kind = "str" THEN SetMin(Tabs) ELSE 1])>>)
=============================================================================

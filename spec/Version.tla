------------------------------- MODULE Version -------------------------------
(* Version information: the resource block (reader and writer) and the      *)
(* container edited by the user, [fx, strs, tr]:                            *)
(*   fx    ten 4-byte words (see FxName)                                    *)
(*   strs  string tables [k, v] ordered by key, v: strings [k, v] in order  *)
(*   tr    translations <<language, codepage>> ordered by language          *)
EXTENDS Icons

FxName == <<"file version ms", "file version ls", "product version ms", "product version ls", "flags", "os", "type", "subtype", "date ms", "date ls">>
Ver0 == [fx |-> [i \in 1..10 |-> Zeros(4)], strs |-> <<>>, tr |-> <<>>]
VER == "resource_incorrect_version_info"
AlNum == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
AlNumCode(k) == IF k <= 10 THEN 47 + k ELSE IF k <= 36 THEN 54 + k ELSE IF k = 37 THEN 95 ELSE 59 + k
Ascii(s) == [i \in 1..Len(s) |-> AlNumCode(CHOOSE k \in 1..63 : SubSeq(AlNum, k, k) = SubSeq(s, i, i))]
KRoot == Ascii("VS_VERSION_INFO")
KStrings == Ascii("StringFileInfo")
KVars == Ascii("VarFileInfo")
KTrans == Ascii("Translation")
FxMagic == <<189, 4, 239, 254, 0, 0, 1, 0>>

\* --- ordered maps as sequences of [k, v] ----------------------------------------
At(m, k) == LET S == {i \in 1..Len(m) : m[i].k = k} IN IF S = {} THEN 0 ELSE SetMin(S)
Lower(m, k) == Cardinality({i \in 1..Len(m) : SeqLt(m[i].k, k)})
PutK(m, k, v) == LET i == At(m, k)  n == Lower(m, k) IN
                 IF i # 0 THEN [m EXCEPT ![i].v = v] ELSE SubSeq(m, 1, n) \o <<[k |-> k, v |-> v]>> \o SubSeq(m, n + 1, Len(m))
InsK(m, k, v) == IF At(m, k) # 0 THEN m ELSE PutK(m, k, v)     \* does not replace
AddPair(t, p) == LET n == Cardinality({i \in 1..Len(t) : t[i][1] <= p[1]}) IN SubSeq(t, 1, n) \o <<p>> \o SubSeq(t, n + 1, Len(t))

\* --- the block -------------------------------------------------------------------
Units16(b, o, n) == [k \in 1..n |-> U16(b, o + 2 * (k - 1))]
Bytes16(u) == [k \in 1..(2 * Len(u)) |-> IF k % 2 = 1 THEN u[(k + 1) \div 2] % 256 ELSE u[k \div 2] \div 256]
HasSurr(u) == \E k \in 1..Len(u) : u[k] >= 55296 /\ u[k] <= 57343
NotUcs2(u) == \E k \in 1..Len(u) : u[k] > 65535 \/ (u[k] >= 55296 /\ u[k] <= 57343)
\* units at o up to the first zero; ok: there is one
KeyAt(b, o) == LET m == (Len(b) - o) \div 2
                   Z == {k \in 1..m : b[o + 2 * k - 1] = 0 /\ b[o + 2 * k] = 0}
               IN IF Z = {} THEN [ok |-> FALSE, u |-> <<>>] ELSE [ok |-> TRUE, u |-> Units16(b, o, SetMin(Z) - 1)]
VPos(p, key) == AlignUp(p + 6 + 2 * (Len(key) + 1), 4)
VBlock(b, p) == LET key == KeyAt(b, p + 6) IN
    IF Len(b) < p + 8 THEN [ok |-> FALSE]
    ELSE IF ~key.ok THEN [ok |-> FALSE]
    ELSE LET vp == VPos(p, key.u) IN
         [ok |-> TRUE, p |-> p, len |-> U16(b, p), vl |-> U16(b, p + 2), key |-> key.u, vp |-> vp, cp |-> vp + AlignUp(U16(b, p + 2), 4)]
\* the blocks from position p up to (not including) position hi
RECURSIVE VBlocks(_, _, _, _)
VBlocks(b, p, hi, acc) == IF p >= hi THEN acc
                          ELSE LET x == VBlock(b, p) IN
                               IF ~x.ok THEN [ok |-> FALSE, q |-> <<>>]
                               ELSE IF x.len = 0 THEN [ok |-> FALSE, q |-> <<>>]
                               ELSE VBlocks(b, p + AlignUp(x.len, 4), hi, [ok |-> TRUE, q |-> Append(acc.q, x)])
Children(b, x) == VBlocks(b, x.cp, x.p + x.len, [ok |-> TRUE, q |-> <<>>])
\* value of a string block
VText(b, x) == IF x.vl = 0 THEN [ok |-> TRUE, u |-> <<>>]
               ELSE IF x.vp + 2 * x.vl > Len(b) THEN [ok |-> FALSE, u |-> <<>>]
               ELSE LET u == Trim(Units16(b, x.vp, x.vl)) IN [ok |-> ~HasSurr(u), u |-> u]
VTable(b, x) == LET C == Children(b, x) IN
    IF ~C.ok THEN [ok |-> FALSE, m |-> <<>>]
    ELSE FoldLeft(LAMBDA acc, s : LET t == VText(b, s) IN
                     IF acc.ok /\ t.ok /\ ~HasSurr(s.key) THEN [ok |-> TRUE, m |-> InsK(acc.m, s.key, t.u)] ELSE [ok |-> FALSE, m |-> <<>>], [ok |-> ~HasSurr(x.key), m |-> <<>>], C.q)
VBadV == [ok |-> FALSE, strs |-> <<>>, tr |-> <<>>]
VStrings(b, x, acc) == LET C == Children(b, x) IN
    IF ~C.ok THEN VBadV
    ELSE FoldLeft(LAMBDA a, s : LET t == VTable(b, s) IN IF ~a.ok THEN a ELSE IF ~t.ok THEN VBadV ELSE [a EXCEPT !.strs = InsK(@, s.key, t.m)], acc, C.q)
VVars(b, x, acc) == LET C == Children(b, x) IN
    IF ~C.ok THEN VBadV
    ELSE FoldLeft(LAMBDA a, s : IF ~a.ok \/ s.key # KTrans \/ s.vl = 0 THEN a
                                ELSE IF s.vl % 4 # 0 \/ s.vp + s.vl > Len(b) THEN VBadV
                                ELSE [a EXCEPT !.tr = FoldLeft(LAMBDA t, k : AddPair(t, <<U16(b, s.vp + 4 * (k - 1)), U16(b, s.vp + 4 * (k - 1) + 2)>>), @, [k \in 1..(s.vl \div 4) |-> k])], acc, C.q)
VParse(b) ==
    LET root == VBlock(b, 0)
        hasFx == root.vl # 0
        fxOk == root.vp + 52 <= Len(b) /\ Raw(b, root.vp, 8) = FxMagic
        f(k) == Raw(b, root.vp + 8 + 4 * k, 4)
        fx == [i \in 1..10 |-> f(IF i <= 4 THEN i - 1 ELSE i)]     \* the flags mask is not kept
        C == Children(b, root)
        R == FoldLeft(LAMBDA a, x : IF ~a.ok THEN a ELSE IF x.key = KStrings THEN VStrings(b, x, a) ELSE IF x.key = KVars THEN VVars(b, x, a) ELSE VBadV,
                      [ok |-> TRUE, strs |-> <<>>, tr |-> <<>>], C.q)
        no == [ok |-> FALSE, v |-> Ver0]
    IN IF ~root.ok THEN no
       ELSE IF root.key # KRoot THEN no
       ELSE IF hasFx /\ ~(root.vp + 52 <= Len(b)) THEN no
       ELSE IF hasFx /\ ~fxOk THEN no
       ELSE IF ~C.ok THEN no
       ELSE IF ~R.ok THEN no
       ELSE [ok |-> TRUE, v |-> [fx |-> IF hasFx THEN fx ELSE Ver0.fx, strs |-> R.strs, tr |-> R.tr]]

Pad4(b) == b \o Zeros(AlignUp(Len(b), 4) - Len(b))
\* the length field of a string block does not count the padding after it
MkBlock(len, vl, type, key, body) == LE2(len) \o LE2(vl) \o LE2(type) \o Drop(Pad4(Zeros(6) \o Bytes16(key) \o <<0, 0>>), 6) \o body
HdrLen(key) == AlignUp(6 + 2 * (Len(key) + 1), 4)
MkString(s) == LET val == Bytes16(s.v) \o <<0, 0>> IN MkBlock(HdrLen(s.k) + Len(val), Len(s.v) + 1, 1, s.k, Pad4(val))
Joined(q) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, q)
MkTable(t) == LET body == Joined([i \in 1..Len(t.v) |-> MkString(t.v[i])]) IN MkBlock(HdrLen(t.k) + Len(body), 0, 1, t.k, body)
MkVer(v) ==
    LET fx == FxMagic \o Joined([i \in 1..4 |-> v.fx[i]]) \o <<63, 0, 0, 0>> \o Joined([i \in 1..6 |-> v.fx[4 + i]])
        sb == Joined([i \in 1..Len(v.strs) |-> MkTable(v.strs[i])])
        tb == Joined([i \in 1..Len(v.tr) |-> LE2(v.tr[i][1]) \o LE2(v.tr[i][2])])
        trans == MkBlock(HdrLen(KTrans) + Len(tb), Len(tb), 0, KTrans, tb)
        body == fx \o (IF v.strs = <<>> THEN <<>> ELSE MkBlock(HdrLen(KStrings) + Len(sb), 0, 1, KStrings, sb))
                   \o (IF v.tr = <<>> THEN <<>> ELSE MkBlock(HdrLen(KVars) + Len(trans), 0, 1, KVars, trans))
    IN MkBlock(HdrLen(KRoot) + Len(body), 52, 0, KRoot, body)
\* length of that block, without building it
VerLen(v) ==
    LET tl(t) == HdrLen(t.k) + FoldLeft(LAMBDA acc, s : acc + HdrLen(s.k) + AlignUp(2 * (Len(s.v) + 1), 4), 0, t.v)
    IN HdrLen(KRoot) + 52 + (IF v.strs = <<>> THEN 0 ELSE HdrLen(KStrings) + FoldLeft(LAMBDA acc, t : acc + tl(t), 0, v.strs))
       + (IF v.tr = <<>> THEN 0 ELSE HdrLen(KVars) + HdrLen(KTrans) + 4 * Len(v.tr))
VerBadText(v) == \E i \in 1..Len(v.strs) : NotUcs2(v.strs[i].k) \/ \E j \in 1..Len(v.strs[i].v) : NotUcs2(v.strs[i].v[j].k) \/ NotUcs2(v.strs[i].v[j].v)

\* --- the container ------------------------------------------------------------------
DefTr == Ascii("041904b0")
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE c - 55
HexNum(u) == FoldLeft(LAMBDA acc, c : 16 * acc + HexVal(c), 0, u)
\* 1 to 8 hexadecimal digits
PairOf(s) == LET n == Len(s) IN IF n <= 4 THEN <<0, HexNum(s)>> ELSE <<HexNum(SubSeq(s, 1, n - 4)), HexNum(SubSeq(s, n - 3, n))>>
Hex4(x) == [i \in 1..4 |-> LET d == (x \div (16 ^ (4 - i))) % 16 IN IF d < 10 THEN 48 + d ELSE 87 + d]
TrStr(p) == Hex4(p[1]) \o Hex4(p[2])
LowerCase(u) == [i \in 1..Len(u) |-> IF u[i] >= 65 /\ u[i] <= 90 THEN u[i] + 32 ELSE u[i]]
AddTr(v, p) == IF \E i \in 1..Len(v.tr) : v.tr[i] = p THEN v ELSE [v EXCEPT !.tr = AddPair(@, p)]
RemTr(v, p) == LET S == {i \in 1..Len(v.tr) : v.tr[i] = p} IN
    [v EXCEPT !.strs = SelectSeq(@, LAMBDA t : LowerCase(t.k) # TrStr(p)), !.tr = IF S = {} THEN @ ELSE DelAt(@, SetMin(S))]
\* the table meant by a translation string (0: none)
TableOf(v, tr) == IF tr # <<>> THEN At(v.strs, tr) ELSE IF At(v.strs, DefTr) # 0 THEN At(v.strs, DefTr) ELSE IF v.strs = <<>> THEN 0 ELSE 1
SetProp(v, n, val, tr) ==
    LET i == TableOf(v, tr)
        k == IF tr = <<>> THEN DefTr ELSE tr
        w == AddTr([v EXCEPT !.strs = PutK(@, k, <<>>)], PairOf(k))
    IN IF i # 0 THEN [v EXCEPT !.strs[i].v = PutK(@, n, val)] ELSE [w EXCEPT !.strs[At(w.strs, k)].v = PutK(@, n, val)]
PropName(e) == CASE e.fn = "prop" -> e.n [] e.fn = "company" -> Ascii("CompanyName") [] e.fn = "desc" -> Ascii("FileDescription") [] e.fn = "fver" -> Ascii("FileVersion")
    [] e.fn = "internal" -> Ascii("InternalName") [] e.fn = "copyright" -> Ascii("LegalCopyright") [] e.fn = "original" -> Ascii("OriginalFilename")
    [] e.fn = "pname" -> Ascii("ProductName") [] e.fn = "pver" -> Ascii("ProductVersion")
VerEdit(v, e) == LET tr == Opt(e, "tr", <<>>)  p == IF Has(e, "tr") THEN PairOf(e.tr) ELSE <<e.l, e.c>> IN
    IF e.fn = "add" THEN AddTr(v, p) ELSE IF e.fn = "rem" THEN RemTr(v, p) ELSE SetProp(v, PropName(e), e.v, tr)
\* [x, v]
GetProp(v, e) == LET i == TableOf(v, Opt(e, "tr", <<>>))
                     j == At(v.strs[i].v, PropName(e))
                     no == IF Opt(e, "throw", FALSE) THEN [x |-> "version_info_string_does_not_exist", v |-> <<>>] ELSE [x |-> "none", v |-> <<>>]
                 IN IF i = 0 THEN no ELSE IF j = 0 THEN no ELSE [x |-> "none", v |-> v.strs[i].v[j].v]

FlagMask == <<1, 2, 4, 8, 32, 16>>
FlagIdx(fn) == CASE fn = "debug" -> 1 [] fn = "prerelease" -> 2 [] fn = "patched" -> 3 [] fn = "private" -> 4 [] fn = "special" -> 5 [] fn = "inferred" -> 6
OsCode == <<<<0, 0, 1, 0>>, <<0, 0, 2, 0>>, <<0, 0, 3, 0>>, <<0, 0, 4, 0>>, <<0, 0, 5, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<3, 0, 0, 0>>, <<4, 0, 0, 0>>,
            <<1, 0, 1, 0>>, <<4, 0, 1, 0>>, <<2, 0, 2, 0>>, <<3, 0, 3, 0>>, <<4, 0, 4, 0>>>>
TypeCode == <<1, 2, 3, 4, 5, 7>>
FviEdit(fx, e) ==
    CASE e.fn = "raw" -> [fx EXCEPT ![e.i + 1] = e.v]
      [] e.fn = "os" -> IF e.v >= 1 /\ e.v <= 14 THEN [fx EXCEPT ![6] = OsCode[e.v]] ELSE fx
      [] e.fn = "type" -> IF e.v >= 1 /\ e.v <= 6 THEN [fx EXCEPT ![7] = LE4(TypeCode[e.v])] ELSE fx
      [] e.fn = "get" -> fx
      [] OTHER -> LET m == FlagMask[FlagIdx(e.fn)]  w == fx[5] IN [fx EXCEPT ![5] = <<IF e.v THEN Or16(w[1], m) ELSE Clr16(w[1], m), w[2], w[3], w[4]>>]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
VerText(ms, ls) == Dec(U16(ms, 2)) \o <<46>> \o Dec(U16(ms, 0)) \o <<46>> \o Dec(U16(ls, 2)) \o <<46>> \o Dec(U16(ls, 0))
FviBad(fx, e) ==
    EqBad("fixed fields", e.fx, fx)
    \cup EqBad("flags", e.flags, [i \in 1..6 |-> And16(fx[5][1], FlagMask[i]) # 0])
    \cup EqBad("os", e.os, LET S == {i \in 1..14 : OsCode[i] = fx[6]} IN IF S = {} THEN 0 ELSE SetMin(S))
    \cup EqBad("type", e.type, LET S == {i \in 1..6 : LE4(TypeCode[i]) = fx[7]} IN IF S = {} THEN 0 ELSE SetMin(S))
    \cup EqBad("version strings", <<e.fs, e.fw, e.ps, e.pw>>, <<VerText(fx[1], fx[2]), VerText(fx[1], fx[2]), VerText(fx[3], fx[4]), VerText(fx[3], fx[4])>>)

VKey(e) == [k \in (DOMAIN e \cap {"lang", "index", "cp", "ts"}) \cup {"t", "id"} |-> IF k = "t" THEN 16 ELSE IF k = "id" THEN LE4(1) ELSE e[k]]
SetVer(env, v) == [env EXCEPT !.ver = v]
VerDiff(got, v) == EqBad("fixed fields", got.fx, v.fx) \cup ListBad("string tables", got.strs, v.strs) \cup EqBad("translations", got.tr, v.tr)
VerStep(env, e) ==
    LET T == Tree(env, e)
        v == env.ver
    IN
    CASE e.op = "ver_set" -> LET w == [fx |-> e.fx, strs |-> FoldLeft(LAMBDA m, t : PutK(m, t.k, FoldLeft(LAMBDA q, s : PutK(q, s.k, s.v), <<>>, t.v)), <<>>, e.strs), tr |-> FoldLeft(AddPair, <<>>, e.tr)]
                             IN Res(SetVer(env, w), IF e.exc # "none" THEN XBad(e, "none") ELSE VerDiff(e.ver, w))
      [] e.op = "ver_write" ->
           LET X == (IF VerLen(v) > 65535 THEN {VER} ELSE {}) \cup (IF VerBadText(v) THEN {"encoding_convertion_error"} ELSE {})
               A == AddRes(T, VKey(e), MkVer(v))
           IN IF X # {} THEN Res(SetTree(env, e, Strip(e.tr)), (IF e.exc \in X THEN {} ELSE {"outcome " \o e.exc \o ", specified " \o ToString(X)}) \cup (IF Strip(e.tr) = T THEN {} ELSE {"refused writing changed the tree"}))
              ELSE LET r == TreeAfter(env, e, A.T, A.x, {})
                       B == VParse(MkVer(v)) IN Res(r.env, r.bad \cup (IF B.ok THEN {} ELSE {"SPEC: written block is malformed"}))
      [] e.op = "ver_rem" -> LET A == RemRes(T, VKey(e)) IN TreeAfter(env, e, A.T, A.x, IF e.exc = "none" THEN EqBad("removed", e.ret, A.ret) ELSE {})
      [] e.op = "ver_read" ->
           LET D == IF Has(e, "index") THEN ResByIndex(T, VKey(e)) ELSE ResByLang(T, VKey(e))
               R == VParse(D.data)
           IN IF D.x # "none" THEN Res(env, XBad(e, D.x))
              ELSE Res(IF e.exc = "none" THEN SetVer(env, e.ver) ELSE env, ReadBad(e, R.ok, IF e.exc # "none" THEN {} ELSE IF R.ok THEN VerDiff(e.ver, R.v) ELSE {"malformed version information accepted"}))
      [] e.op = "ver_edit" -> LET w == VerEdit(v, e) IN Res(SetVer(env, w), IF e.exc # "none" THEN XBad(e, "none") ELSE VerDiff(e.ver, w))
      [] e.op = "ver_look" -> LET x == IF e.fn = "list" THEN [x |-> "none", v |-> [i \in 1..Len(v.tr) |-> TrStr(v.tr[i])]] ELSE IF e.fn = "pair" THEN [x |-> "none", v |-> PairOf(e.tr)] ELSE GetProp(v, e)
                              IN Res(env, IF e.exc # x.x THEN XBad(e, x.x) ELSE IF x.x # "none" THEN {} ELSE EqBad("answer", e.v, x.v))
      [] e.op = "fvi" -> LET fx == FviEdit(v.fx, e) IN Res(SetVer(env, [v EXCEPT !.fx = fx]), IF e.exc # "none" THEN XBad(e, "none") ELSE FviBad(fx, e))
VerOpNames == {"ver_set", "ver_write", "ver_rem", "ver_read", "ver_edit", "ver_look", "fvi"}
=============================================================================

----------------------------- MODULE MC_Version -----------------------------
(* The version information container against a map from (table, property)   *)
(* to text, and the resource block it is written to: every reachable        *)
(* container has a well-nested block that is read back as the container.    *)
EXTENDS Version, Json
CONSTANTS Depth, Trs, Names, Vals, Pairs, Damage

VARIABLES v, m, tabs, hist
vars == <<v, m, tabs, hist>>
View == <<v, Len(hist), hist # <<>> /\ hist[Len(hist)].op = "ver_edit">>
TrsA == {<<>>, DefTr, Ascii("040904b0"), Ascii("040904B0")}
TrsB == {<<>>, Ascii("7")}
TrsC == {DefTr, Ascii("7")}
NamesA == {Ascii("CompanyName"), <<65>>}
NamesB == {<<66>>, <<65>>}
ValsA == {<<>>, <<88, 89>>}
ValsB == {<<9999>>, <<0>>, <<88, 0, 0>>}
ValsC == {<<88, 0, 89>>}
PairsA == {<<1033, 1200>>, <<1049, 1200>>}
PairsB == {<<0, 7>>, <<65535, 0>>}

\* m: <<table, property>> -> text; tabs: the tables there are
Init == v = Ver0 /\ m = EmptyMap /\ tabs = {} /\ hist = <<>>
Do(c) == v' = VerEdit(v, c) /\ hist' = Append(hist, c)
\* the table that a translation string means; it may have to be made
Meant(tr) == IF tr # <<>> THEN tr ELSE IF DefTr \in tabs \/ tabs = {} THEN DefTr ELSE CHOOSE t \in tabs : \A u \in tabs : t = u \/ SeqLt(t, u)
Set == \E tr \in Trs, n \in Names, x \in Vals :
       /\ Do([op |-> "ver_edit", fn |-> "prop", n |-> n, v |-> x, tr |-> tr])
       /\ m' = Put(m, <<Meant(tr), n>>, x) /\ tabs' = tabs \cup {Meant(tr)}
AddT == \E p \in Pairs : Do([op |-> "ver_edit", fn |-> "add", l |-> p[1], c |-> p[2]]) /\ UNCHANGED <<m, tabs>>
Of(t, p) == Len(t) = 8 /\ PairOf(t) = p
RemT == \E p \in Pairs : /\ Do([op |-> "ver_edit", fn |-> "rem", l |-> p[1], c |-> p[2]])
        /\ tabs' = {t \in tabs : ~Of(t, p)} /\ m' = [k \in {k \in DOMAIN m : ~Of(k[1], p)} |-> m[k]]
\* written to the resource and read again: trailing zeros of texts are lost
Again == /\ hist # <<>> /\ hist[Len(hist)].op = "ver_edit"
         /\ hist' = hist \o <<[op |-> "ver_write", lang |-> LE4(0)], [op |-> "ver_read", lang |-> LE4(0)]>>
         /\ v' = VParse(MkVer(v)).v /\ m' = [k \in DOMAIN m |-> Trim(m[k])] /\ UNCHANGED tabs
Next == Len(hist) < Depth /\ (Set \/ AddT \/ RemT \/ Again)
Spec == Init /\ [][Next]_vars

Sorted == /\ \A i \in 2..Len(v.strs) : SeqLt(v.strs[i - 1].k, v.strs[i].k)
          /\ \A i \in 1..Len(v.strs) : \A j \in 2..Len(v.strs[i].v) : SeqLt(v.strs[i].v[j - 1].k, v.strs[i].v[j].k)
          /\ \A i \in 2..Len(v.tr) : v.tr[i - 1][1] <= v.tr[i][1]
          /\ ~HasDup(v.tr)
Agrees == /\ {v.strs[i].k : i \in 1..Len(v.strs)} = tabs
          /\ UNION {{<<<<v.strs[i].k, v.strs[i].v[j].k>>, v.strs[i].v[j].v>> : j \in 1..Len(v.strs[i].v)} : i \in 1..Len(v.strs)} = {<<k, m[k]>> : k \in DOMAIN m}
Answers == \A tr \in Trs, n \in Names :
           LET G == GetProp(v, [fn |-> "prop", n |-> n, tr |-> tr, throw |-> TRUE])
               k == <<Meant(tr), n>>
           IN IF k \in DOMAIN m THEN G = [x |-> "none", v |-> m[k]]
              ELSE G.x = "version_info_string_does_not_exist" /\ GetProp(v, [fn |-> "prop", n |-> n, tr |-> tr]) = [x |-> "none", v |-> <<>>]
\* what a property is set to is what it is, and no other property changes
SetGet == [][LET c == hist'[Len(hist')] IN c.op = "ver_edit" /\ c.fn = "prop" =>
             /\ GetProp(v', c) = [x |-> "none", v |-> c.v]
             /\ \A k \in DOMAIN m : m'[k] = m[k] \/ (k[2] = c.n /\ At(v'.strs, k[1]) = TableOf(v', c.tr))]_vars
\* adding a translation: there once, nothing else changes; removing it takes its tables with it
Trans == [][LET c == hist'[Len(hist')] IN c.op = "ver_edit" =>
            /\ c.fn = "add" => (<<c.l, c.c>> \in {v'.tr[i] : i \in 1..Len(v'.tr)} /\ v'.strs = v.strs /\ (\E i \in 1..Len(v.tr) : v.tr[i] = <<c.l, c.c>>) = (v' = v))
            /\ c.fn = "rem" => {v'.tr[i] : i \in 1..Len(v'.tr)} = {v.tr[i] : i \in 1..Len(v.tr)} \ {<<c.l, c.c>>}]_vars

\* --- the block ---
B == MkVer(v)
Norm(w) == [w EXCEPT !.strs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = Trim(@)]]]]]
RoundTrip == LET P == VParse(B) IN P.ok /\ P.v = Norm(v) /\ VerLen(v) = Len(B) /\ MkVer(P.v) = MkVer(Norm(v))
\* blocks lie on 4-byte boundaries inside their parents, one after another
RECURSIVE Nested(_, _, _)
Nested(b, x, deep) ==
    LET C == Children(b, x) IN
    /\ x.ok /\ x.p % 4 = 0 /\ x.len >= 8 /\ x.p + x.len <= Len(b) /\ x.cp % 4 = 0
    /\ deep > 0 => /\ C.ok /\ \A i \in 1..Len(C.q) : Nested(b, C.q[i], deep - 1) /\ C.q[i].p + C.q[i].len <= x.p + x.len
                   /\ \A i \in 2..Len(C.q) : C.q[i].p = C.q[i - 1].p + AlignUp(C.q[i - 1].len, 4)
Block == LET r == VBlock(B, 0) IN r.len = Len(B) /\ Nested(B, r, 2) /\ Len(B) % 4 = 0
\* the reader decides about every damaged block (one byte replaced, or the end cut off)
Hurt(p, x) == [B EXCEPT ![p] = (@ + x) % 256]
Total == Len(hist) < Depth \/ \A p \in 1..Len(B) : \A x \in Damage : VParse(Hurt(p, x)).ok \in BOOLEAN /\ VParse(SubSeq(B, 1, p - 1)).ok \in BOOLEAN
Beh == (Len(hist) >= Depth) => PrintT(<<"BEH", ToJson([calls |-> hist, blk |-> B, trs |-> SetToSeq(Trs), names |-> SetToSeq(Names)])>>)
=============================================================================

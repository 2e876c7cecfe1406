------------------------------ MODULE MC_Icons ------------------------------
(* Icon and cursor groups against lists of pictures: adding a file appends  *)
(* its pictures to the list of the group, removing a group removes it and   *)
(* its pictures, and reading a group (or one picture) gives a file with     *)
(* exactly these pictures; the numbers of pictures are never shared.        *)
EXTENDS Icons, Json
CONSTANTS Depth, Kinds, GKeys, Langs, Modes, Files, Pres

VARIABLES T, g, pre, hist
vars == <<T, g, pre, hist>>
View == <<T, Len(hist)>>
KeysA == {[id |-> LE4(1)], [n |-> <<65>>]}
KeysB == {[id |-> LE4(5)]}
\* g: <<kind, key, language>> -> the pictures, in order; pre: numbers of pictures in no group, with their languages
Init == T = EmptyDir /\ g = EmptyMap /\ pre = {} /\ hist = <<>>

\* pictures: head = the eight first bytes of a directory entry of a file
Pic(k) == CASE k = 1 -> [head |-> <<16, 32, 4, 0, 1, 0, 8, 0>>, px |-> <<201>>]
            [] k = 2 -> [head |-> <<0, 200, 0, 9, 255, 255, 2, 1>>, px |-> <<202, 203, 204>>]
            [] k = 3 -> [head |-> <<127, 128, 255, 0, 3, 1, 4, 2>>, px |-> <<205, 206, 207, 208, 209>>]
            [] k = 4 -> [head |-> <<1, 0, 2, 0, 0, 0, 0, 1>>, px |-> <<210, 211>>]
\* files: lists of pictures; the pixels may lie in another order and with gaps
FilePics(f) == CASE f = 1 -> <<1>> [] f = 2 -> <<2, 3>> [] f = 3 -> <<4, 1, 4>>
Lay2(ps, from, rev, gap) ==
    LET n == Len(ps)
        ord(i) == IF rev THEN n + 1 - i ELSE i
        at(i) == from + FoldLeft(LAMBDA a, j : IF ord(j) < ord(i) THEN a + Len(Pic(ps[j]).px) + gap ELSE a, 0, [j \in 1..n |-> j])
        body == FoldLeft(LAMBDA a, r : LET i == ord(r) IN a \o Pic(ps[i]).px \o [x \in 1..gap |-> 99], <<>>, [r \in 1..n |-> r])
    IN [ents |-> FlattenSeq([i \in 1..n |-> Pic(ps[i]).head \o LE4(Len(Pic(ps[i]).px)) \o LE4(at(i))]), body |-> body]
PicFile(kind, f) ==
    LET ps == FilePics(f)
        L2 == Lay2(ps, 6 + 16 * Len(ps), f = 2, IF f = 3 THEN 2 ELSE 0)
    IN <<0, 0, IF kind = "cursor" THEN 2 ELSE 1, 0>> \o LE2(Len(ps)) \o L2.ents \o L2.body
\* a file, taken apart
Unpack(b) == [i \in 1..U16(b, 4) |-> LET q == SubSeq(b, 6 + 16 * (i - 1) + 1, 6 + 16 * i) IN [head |-> SubSeq(q, 1, 8), px |-> SubSeq(b, U32(q, 12) + 1, U32(q, 12) + U32(q, 8))]]
\* what is kept of a picture: a cursor has no colour count, and its height is kept doubled
Kept(kind, p) == IF kind = "cursor" THEN [p EXCEPT !.head = <<@[1], @[2], 0, 0>> \o SubSeq(@, 5, 8)] ELSE p
Slot(k, key, l) == <<k, key, l>>

AddFile == \E k \in Kinds, key \in GKeys, l \in Langs, md \in Modes, f \in Files :
           LET c == [op |-> "ico_add", kind |-> k, lang |-> LE4(l), mode |-> md, cp |-> LE4(9), ts |-> LE4(3), file |-> PicFile(k, f)] @@ key
               A == IconAdd(T, c)
               s == Slot(k, key, l)
               new == [i \in 1..Len(FilePics(f)) |-> Kept(k, Pic(FilePics(f)[i]))]
           IN /\ Assert(A.x = "none", c) /\ T' = A.T /\ hist' = Append(hist, c)
              /\ g' = Put(g, s, (IF s \in DOMAIN g THEN g[s] ELSE <<>>) \o new) /\ UNCHANGED pre
RemGroup == \E k \in Kinds, key \in GKeys, l \in Langs :
            LET c == [op |-> "ico_rem", kind |-> k, lang |-> LE4(l)] @@ key
                A == IconRemove(T, c)
                s == Slot(k, key, l)
            IN /\ hist' = Append(hist, c) /\ T' = A.T
               /\ IF s \in DOMAIN g THEN A.x = "none" /\ A.ret /\ g' = [x \in DOMAIN g \ {s} |-> g[x]] ELSE A.x = NF /\ A.T = T /\ g' = g
               /\ UNCHANGED pre
\* a picture that belongs to no group
Place == hist = <<>> /\ \E k \in Kinds, num \in Pres, l \in Langs :
         LET c == [op |-> "rm_add", t |-> MemberType([kind |-> k]), id |-> LE4(num), lang |-> LE4(l), data |-> <<1, 2, 3, 4, 5>>] IN
         /\ T' = AddRes(T, c, c.data).T /\ pre' = {<<k, num, l>>} /\ hist' = Append(hist, c) /\ UNCHANGED g
Next == Len(hist) < Depth /\ (AddFile \/ RemGroup \/ Place)
Spec == Init /\ [][Next]_vars

Q(s) == [kind |-> s[1], lang |-> LE4(s[3])] @@ s[2]
\* numbers of the pictures of a group
Nums(s) == Members(ResByLang(T, GKey(Q(s))).data)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Groups == \A k \in Kinds, key \in GKeys, l \in Langs :
          LET s == Slot(k, key, l)  R == ReadGroup(T, Q(s)) IN
          IF s \notin DOMAIN g THEN R.X = {NF}
          ELSE /\ R.X = {} /\ Unpack(R.v) = g[s]
               /\ SubSeq(R.v, 1, 6) = <<0, 0, IF k = "cursor" THEN 2 ELSE 1, 0>> \o LE2(Len(g[s]))
               /\ Len(R.v) = 6 + 16 * Len(g[s]) + SumLen(g[s], LAMBDA p : Len(p.px))
               \* a file that has been read can be added as it is
               /\ FileOk(R.v)
\* by index: the groups of one name, in all languages
ByIndex == \A k \in Kinds, key \in GKeys :
           LET S == {s \in DOMAIN g : s[1] = k /\ s[2] = key} IN
           {ReadGroup(T, [kind |-> k, index |-> i] @@ key) : i \in 0..Cardinality(S)}
           = {[X |-> {}, v |-> ReadGroup(T, Q(s)).v] : s \in S} \cup {[X |-> {IF S = {} THEN NF ELSE "resource_data_entry_not_found"}, v |-> <<>>]}
\* numbers: one picture each; none is shared, none is left over
Numbers == \A k \in Kinds :
           LET S == {s \in DOMAIN g : s[1] = k}
               R == RootDir(T, [t |-> MemberType([kind |-> k])])
               there == UNION {{<<k, U32(R.d.ents[j].id, 0), U32(R.d.ents[j].sub[1].ents[l].id, 0)>> : l \in 1..Len(R.d.ents[j].sub[1].ents)} : j \in 1..(IF R.x = "none" THEN Len(R.d.ents) ELSE 0)}
           IN /\ \A s \in S : Cardinality(SeqSet(Nums(s))) = Len(g[s])
              /\ \A s, t \in S : s # t => SeqSet(Nums(s)) \cap SeqSet(Nums(t)) = {}
              /\ there = {x \in pre : x[1] = k} \cup UNION {{<<k, U16(n, 0), s[3]>> : n \in SeqSet(Nums(s))} : s \in S}
\* one picture at a time
Singles == \A s \in DOMAIN g : \A i \in 1..Len(g[s]) :
           LET R == ReadSingle(T, [kind |-> s[1], id |-> Nums(s)[i] \o <<0, 0>>, lang |-> LE4(s[3])]) IN
           R.X = {} /\ Unpack(R.v) = <<g[s][i]>> /\ Len(R.v) = 22 + Len(g[s][i].px)
\* new numbers are the lowest free ones, or follow the highest
Fresh == [][hist'[Len(hist')].op = "ico_add" =>
            LET c == hist'[Len(hist')]
                R == RootDir(T, [t |-> MemberType(c)])
                R2 == RootDir(T', [t |-> MemberType(c)])
                ids(D) == {U32(D.ents[j].id, 0) : j \in 1..Len(D.ents)}
                old == IF R.x = "none" THEN ids(R.d) ELSE {}
                new == ids(R2.d) \ old
            IN /\ Cardinality(new) = U16(c.file, 4) /\ new \subseteq 1..65535
               /\ c.mode = "free" => \A n \in new : \A x \in 1..n : x \in old \cup new
               /\ c.mode = "max" => \A n \in new : (\A x \in old : x < n) \/ 65535 \in old \cup new]_vars
\* the two kinds do not touch one another
Other(k) == IF k = "icon" THEN {12, 1} ELSE {14, 3}
Frame == [][hist'[Len(hist')].op \in {"ico_add", "ico_rem"} => \A t \in Other(hist'[Len(hist')].kind) : RootDir(T', [t |-> t]) = RootDir(T, [t |-> t])]_vars
Beh == (Len(hist) >= Depth) => PrintT(<<"BEH", ToJson([calls |-> hist, kinds |-> SetToSeq(Kinds), keys |-> SetToSeq(GKeys), langs |-> SetToSeq({LE4(l) : l \in Langs})])>>)
=============================================================================

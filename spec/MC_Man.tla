------------------------------- MODULE MC_Man -------------------------------
(* The resource manager against a finite map from (type, name, language) to *)
(* (codepage, data): adding is an update of the map, removing a restriction *)
(* of it, and every question of the viewer is answered from it.             *)
EXTENDS Resources, Json
CONSTANTS Depth, Roots, Keys, Langs, Datas
RootsA == {[t |-> 10], [rn |-> <<65>>]}
KeysA == {[id |-> LE4(0)], [n |-> <<>>]}
RootsB == {[t |-> 10], [t |-> 3]}
KeysB == {[id |-> LE4(1)], [id |-> <<255, 255, 255, 255>>], [n |-> <<65>>]}
RootsC == {[t |-> 10], [rn |-> <<65>>], [rn |-> <<>>]}
KeysC == {[id |-> LE4(1)], [n |-> <<65>>], [n |-> <<66>>]}

VARIABLES T, m, hist
vars == <<T, m, hist>>
View == <<T, Len(hist)>>
Init == T = EmptyDir /\ m = EmptyMap /\ hist = <<>>

LangOf(l) == LE4(l)
DataOf(d) == [i \in 1..d |-> 7 * i]
Cell(r, k, l) == [root |-> r, key |-> k, lang |-> l]
AddOne == \E r \in Roots, k \in Keys, l \in Langs, d \in Datas :
       LET c == [op |-> "rm_add", lang |-> LangOf(l), data |-> DataOf(d), cp |-> LE4(100 + d), ts |-> LE4(7)] @@ r @@ k
           A == AddRes(T, c, c.data)
       IN /\ A.x = "none" /\ T' = A.T /\ hist' = Append(hist, c)
          /\ m' = Put(m, Cell(r, k, l), [cp |-> c.cp, data |-> c.data])
Without(P(_)) == [y \in {y \in DOMAIN m : ~P(y)} |-> m[y]]
Del(c, P(_)) == LET A == RemRes(T, c) IN
                /\ A.x = "none" /\ A.ret = (\E y \in DOMAIN m : P(y)) /\ T' = A.T /\ m' = Without(P) /\ hist' = Append(hist, c)
RemType == \E r \in Roots : Del([op |-> "rm_rem"] @@ r, LAMBDA x : x.root = r)
RemKey == \E r \in Roots, k \in Keys : Del([op |-> "rm_rem"] @@ r @@ k, LAMBDA x : x.root = r /\ x.key = k)
RemLang == \E r \in Roots, k \in Keys, l \in Langs : Del([op |-> "rm_rem", lang |-> LangOf(l)] @@ r @@ k, LAMBDA x : x = Cell(r, k, l))
Next == Len(hist) < Depth /\ (AddOne \/ RemType \/ RemKey \/ RemLang)
Spec == Init /\ [][Next]_vars

\* an operation on this tree never fails, and a removal says whether there was something
Always == Len(hist) < Depth =>
          /\ \A r \in Roots, k \in Keys, l \in Langs : AddRes(T, [lang |-> LangOf(l)] @@ r @@ k, <<>>).x = "none"
          /\ \A r \in Roots, k \in Keys, l \in Langs : LET A == RemRes(T, [lang |-> LangOf(l)] @@ r @@ k) IN A.x = "none" /\ A.ret = (Cell(r, k, l) \in DOMAIN m)
          /\ \A r \in Roots, k \in Keys : LET A == RemRes(T, r @@ k) IN A.x = "none" /\ A.ret = (\E x \in DOMAIN m : x.root = r /\ x.key = k)
          /\ \A r \in Roots : LET A == RemRes(T, r) IN A.x = "none" /\ A.ret = (\E x \in DOMAIN m : x.root = r)

RootOf(x) == IF x.named THEN [rn |-> x.name] ELSE [t |-> U32(x.id, 0)]
KeyOf(x) == IF x.named THEN [n |-> x.name] ELSE [id |-> x.id]
Flat == FoldLeft(LAMBDA a, x : FoldLeft(LAMBDA b, y : FoldLeft(LAMBDA c, z : Append(c, [root |-> RootOf(x), key |-> KeyOf(y), lang |-> z.id, named |-> z.named, k |-> z.k, cp |-> z.cp, data |-> z.data]),
                 b, y.sub[1].ents), a, x.sub[1].ents), <<>>, T.ents)
Agrees == LET f == Flat IN
          /\ Len(f) = Cardinality(DOMAIN m)
          /\ \A i \in 1..Len(f) : ~f[i].named /\ f[i].k = "data"
          /\ {<<f[i].root, f[i].key, f[i].lang, f[i].cp, f[i].data>> : i \in 1..Len(f)} = {<<x.root, x.key, LangOf(x.lang), m[x].cp, m[x].data>> : x \in DOMAIN m}
NoEmpty == \A i \in 1..Len(T.ents) : T.ents[i].k = "dir" /\ T.ents[i].sub[1].ents # <<>>
           /\ \A j \in 1..Len(T.ents[i].sub[1].ents) : T.ents[i].sub[1].ents[j].k = "dir" /\ T.ents[i].sub[1].ents[j].sub[1].ents # <<>>
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Once(q) == Cardinality(SeqSet(q)) = Len(q)
\* the viewer
Types == /\ Once(IdsOf(T)) /\ SeqSet(IdsOf(T)) = {LE4(x.root.t) : x \in {x \in DOMAIN m : Has(x.root, "t")}}
         /\ SeqSet(NamesOf(T)) = {x.root.rn : x \in {x \in DOMAIN m : Has(x.root, "rn")}}
Of(r) == {x \in DOMAIN m : x.root = r}
Lists == \A r \in Roots :
         LET R == RootDir(T, r) IN
         IF Of(r) = {} THEN R.x = NF
         ELSE /\ R.x = "none" /\ Once(IdsOf(R.d)) /\ Once(NamesOf(R.d)) /\ Len(R.d.ents) = Cardinality({x.key : x \in Of(r)})
              /\ SeqSet(IdsOf(R.d)) = {x.key.id : x \in {x \in Of(r) : Has(x.key, "id")}}
              /\ SeqSet(NamesOf(R.d)) = {x.key.n : x \in {x \in Of(r) : Has(x.key, "n")}}
              /\ \A k \in Keys : LET K == KeyDir(T, r @@ k)  S == {x \in Of(r) : x.key = k} IN
                 IF S = {} THEN K.x = NF ELSE K.x = "none" /\ Once(IdsOf(K.d)) /\ SeqSet(IdsOf(K.d)) = {LangOf(x.lang) : x \in S}
Lookups == \A r \in Roots, k \in Keys :
           /\ \A l \in Langs : LET D == ResByLang(T, [lang |-> LangOf(l)] @@ r @@ k)  c == Cell(r, k, l) IN
              IF c \in DOMAIN m THEN D = [x |-> "none", cp |-> m[c].cp, data |-> m[c].data] ELSE D.x = NF
           /\ LET S == {x \in Of(r) : x.key = k}  n == Cardinality(S) IN
              S # {} => /\ {LET D == ResByIndex(T, [index |-> i] @@ r @@ k) IN <<D.x, D.cp, D.data>> : i \in 0..n - 1} = {<<"none", m[x].cp, m[x].data>> : x \in S}
                        /\ ResByIndex(T, [index |-> n] @@ r @@ k).x = "resource_data_entry_not_found"
\* sorting for the file keeps the content
Sorted == LET S == SortTree(T) IN SortTree(S) = S /\ \A r \in Roots, k \in Keys, l \in Langs :
          LET e == [lang |-> LangOf(l)] @@ r @@ k IN ResByLang(S, e) = ResByLang(T, e)
Beh == (Len(hist) >= Depth) => PrintT(<<"BEH", ToJson([calls |-> hist, roots |-> SetToSeq(Roots), keys |-> SetToSeq(Keys), langs |-> SetToSeq({LangOf(l) : l \in Langs})])>>)
=============================================================================

-------------------------------- MODULE Icons --------------------------------
(* Icon and cursor files in the resource tree: a group entry lists the      *)
(* pictures, each of which is a resource of its own under a 16-bit number.  *)
EXTENDS Resources

IsCur(e) == e.kind = "cursor"
IcoErr(e) == IF IsCur(e) THEN "resource_incorrect_cursor" ELSE "resource_incorrect_icon"
GroupType(e) == IF IsCur(e) THEN 12 ELSE 14
MemberType(e) == IF IsCur(e) THEN 1 ELSE 3
\* the same key under the group type
GKey(e) == [k \in (DOMAIN e \cap {"id", "n", "lang", "cp", "ts", "index"}) \cup {"t"} |-> IF k = "t" THEN GroupType(e) ELSE e[k]]
MKey(e, num) == [t |-> MemberType(e), id |-> num \o <<0, 0>>, lang |-> e.lang, cp |-> Opt(e, "cp", Zeros(4)), ts |-> Opt(e, "ts", Zeros(4))]

\* a group resource: 6 bytes, then 14 bytes per picture
GroupOk(b) == IF Len(b) < 6 THEN FALSE ELSE Len(b) >= 6 + 14 * U16(b, 4)
GEnt(b, i) == SubSeq(b, 6 + 14 * (i - 1) + 1, 6 + 14 * i)
Members(b) == [i \in 1..U16(b, 4) |-> SubSeq(GEnt(b, i), 13, 14)]
\* directory entry of the file for picture g whose resource data is d, the image placed at offset o (a word)
FileEnt(e, g, d, o) == IF IsCur(e) THEN <<g[1], (U16(g, 2) \div 2) % 256, 0, 0>> \o SubSeq(d, 1, 4) \o WSub(SubSeq(g, 9, 12), LE4(4)) \o o
                       ELSE SubSeq(g, 1, 12) \o o
SizeOf(e, g) == IF IsCur(e) THEN WSub(SubSeq(g, 9, 12), LE4(4)) ELSE SubSeq(g, 9, 12)
Pixels(e, d) == IF IsCur(e) THEN Drop(d, 4) ELSE d
\* the file made of group b and the pictures D
IcoFile(e, b, D) ==
    LET n == U16(b, 4)
        H == FoldLeft(LAMBDA acc, i : [h |-> acc.h \o FileEnt(e, GEnt(b, i), D[i], acc.o), o |-> WAdd(acc.o, SizeOf(e, GEnt(b, i)))],
                      [h |-> SubSeq(b, 1, 6), o |-> LE4(6 + 16 * n)], [i \in 1..n |-> i])
    IN FoldLeft(LAMBDA acc, i : acc \o Pixels(e, D[i]), H.h, [i \in 1..n |-> i])

\* --- reading ------------------------------------------------------------------
\* picture number num: in the given language, or - reading by index - in the language of the group if there is one, else by index
Member(T, e, num, lang) ==
    LET k == [t |-> MemberType(e), id |-> num \o <<0, 0>>, lang |-> lang, index |-> Opt(e, "index", 0)]
        K == KeyDir(T, k)
        byLang == K.x = "none" /\ lang # <<>> /\ \E i \in 1..Len(K.d.ents) : LangIs(k, K.d.ents[i])
    IN IF ~Has(e, "index") \/ byLang THEN ResByLang(T, k) ELSE ResByIndex(T, k)
FirstExc(q) == LET S == {i \in 1..Len(q) : q[i].x # "none"} IN IF S = {} THEN "none" ELSE q[SetMin(S)].x
ReadGroup(T, e) ==
    LET G == IF Has(e, "index") THEN ResByIndex(T, GKey(e)) ELSE ResByLang(T, GKey(e))
        K == KeyDir(T, GKey(e))
        langs == IdsOf(K.d)
        lang == IF ~Has(e, "index") THEN e.lang ELSE IF e.index < Len(langs) THEN langs[e.index + 1] ELSE <<>>
        D == [i \in 1..U16(G.data, 4) |-> Member(T, e, Members(G.data)[i], lang)]
        x == FirstExc(D)
        short == IsCur(e) /\ \E i \in 1..Len(D) : D[i].x = "none" /\ Len(D[i].data) < 4
    IN IF G.x # "none" THEN [X |-> {G.x}, v |-> <<>>]
       ELSE IF ~GroupOk(G.data) THEN [X |-> {IcoErr(e)}, v |-> <<>>]
       ELSE IF x # "none" \/ short THEN [X |-> (IF x # "none" THEN {x} ELSE {}) \cup (IF short THEN {IcoErr(e)} ELSE {}), v |-> <<>>]
       ELSE [X |-> {}, v |-> IcoFile(e, G.data, [i \in 1..Len(D) |-> D[i].data])]

\* a single picture: the first group (numbered ones first) of that language that lists it gives the header
RECURSIVE FindGroup(_, _, _, _)
FindGroup(T, e, q, lang) ==
    IF q = <<>> THEN [x |-> IF IsCur(e) THEN "no_cursor_group_found" ELSE "no_icon_group_found", b |-> <<>>, i |-> 0]
    ELSE LET k == [f \in DOMAIN q[1] \cup {"t", "lang"} |-> IF f = "t" THEN GroupType(e) ELSE IF f = "lang" THEN lang ELSE q[1][f]]
             K == KeyDir(T, k)
             has == \E i \in 1..Len(K.d.ents) : LangIs(k, K.d.ents[i])
             G == ResByLang(T, k)
             M == Members(G.data)
             S == {i \in 1..Len(M) : M[i] \o <<0, 0>> = e.id}
         IN IF K.x # "none" THEN [x |-> K.x, b |-> <<>>, i |-> 0]
            ELSE IF ~has THEN FindGroup(T, e, Tail(q), lang)
            ELSE IF G.x # "none" THEN [x |-> G.x, b |-> <<>>, i |-> 0]
            ELSE IF ~GroupOk(G.data) THEN [x |-> IcoErr(e), b |-> <<>>, i |-> 0]
            ELSE IF S = {} THEN FindGroup(T, e, Tail(q), lang)
            ELSE [x |-> "none", b |-> G.data, i |-> SetMin(S)]
ReadSingle(T, e) ==
    LET mk == [t |-> MemberType(e), id |-> e.id, lang |-> Opt(e, "lang", Zeros(4)), index |-> Opt(e, "index", 0)]
        K == KeyDir(T, mk)
        langs == IdsOf(K.d)
        lang == IF Has(e, "index") THEN langs[e.index + 1] ELSE e.lang
        D == IF Has(e, "index") THEN ResByIndex(T, mk) ELSE ResByLang(T, mk)
        R == RootDir(T, [t |-> GroupType(e)])
        ids == IdsOf(R.d)
        nms == NamesOf(R.d)
        q == [i \in 1..Len(ids) |-> [id |-> ids[i]]] \o [i \in 1..Len(nms) |-> [n |-> nms[i]]]
        F == FindGroup(T, e, q, lang)
        g == GEnt(F.b, F.i)
    IN IF Has(e, "index") /\ K.x # "none" THEN [X |-> {K.x}, v |-> <<>>]
       ELSE IF Has(e, "index") /\ e.index >= Len(langs) THEN [X |-> {"resource_data_entry_not_found"}, v |-> <<>>]
       ELSE LET X == (IF R.x # "none" THEN {R.x} ELSE IF F.x # "none" THEN {F.x} ELSE {}) \cup (IF D.x # "none" THEN {D.x} ELSE {})
                     \cup (IF D.x = "none" /\ IsCur(e) /\ Len(D.data) < 4 THEN {IcoErr(e)} ELSE {})
            IN IF X # {} THEN [X |-> X, v |-> <<>>]
               ELSE [X |-> {}, v |-> SubSeq(F.b, 1, 4) \o <<1, 0>> \o FileEnt(e, g, D.data, LE4(22)) \o Pixels(e, D.data)]

\* --- writing -------------------------------------------------------------------
FileOk(f) ==
    IF Len(f) < 6 THEN FALSE
    ELSE LET n == U16(f, 4)  h == 6 + 16 * n IN
         IF n = 0 \/ Len(f) < h THEN FALSE
         ELSE \A i \in 0..(n - 1) : LET s == U32(f, 6 + 16 * i + 8)  o == U32(f, 6 + 16 * i + 12) IN s > 0 /\ o >= h /\ o + s <= Len(f)
\* group entry for directory entry q of the file
GroupEnt(e, q, num) == IF IsCur(e) THEN <<q[1], 0>> \o LE2(2 * q[2]) \o Zeros(4) \o WAdd(SubSeq(q, 9, 12), LE4(4)) \o num
                       ELSE SubSeq(q, 1, 12) \o num
\* n numbers that no picture of any group has: the lowest free ones, or the ones after the highest (and when these run out, free ones)
FreeIds(T, e, n) ==
    LET R == RootDir(T, [t |-> MemberType(e)])
        ids == IF R.x = "none" THEN IdsOf(R.d) ELSE <<>>
        used == {ValSat(ids[i]) : i \in 1..Len(ids)} \cap (0..65535)
        top == IF used = {} THEN 0 ELSE SetMax(used)
        Lowest(m) == FoldLeft(LAMBDA acc, i : IF Len(acc) < m /\ i \notin used THEN Append(acc, i) ELSE acc, <<>>, [i \in 1..Min2(65535, Cardinality(used) + m) |-> i])
        after == Min2(n, 65535 - top)
    IN IF Opt(e, "mode", "max") = "max" THEN [i \in 1..after |-> top + i] \o Lowest(n - after)
       ELSE Lowest(n)
IconAdd(T, e) ==
    LET f == e.file
        n == U16(f, 4)
        G == ResByLang(T, GKey(e))
        old == G.x = "none"
        cp == IF old THEN G.cp ELSE Opt(e, "cp", Zeros(4))
        ids == FreeIds(T, e, n)
        m == IF old THEN U16(G.data, 4) ELSE 0
        q(i) == SubSeq(f, 6 + 16 * (i - 1) + 1, 6 + 16 * i)
        new == FoldLeft(LAMBDA acc, i : acc \o GroupEnt(e, q(i), LE2(ids[i])), <<>>, [i \in 1..n |-> i])
        b == (IF old THEN SubSeq(G.data, 1, 4) \o LE2(m + n) \o SubSeq(G.data, 7, 6 + 14 * m) ELSE SubSeq(f, 1, 6)) \o new
        img(i) == SubSeq(f, U32(q(i), 12) + 1, U32(q(i), 12) + U32(q(i), 8))
        data(i) == IF IsCur(e) THEN SubSeq(q(i), 5, 8) \o img(i) ELSE img(i)
        AddOne(A, k, d) == IF A.x # "none" THEN A ELSE AddRes(A.T, [f2 \in DOMAIN k \cup {"cp"} |-> IF f2 = "cp" THEN cp ELSE k[f2]], d)
        A1 == FoldLeft(LAMBDA A, i : AddOne(A, MKey(e, LE2(ids[i])), data(i)), [x |-> "none", T |-> T], [i \in 1..n |-> i])
    IN IF ~FileOk(f) THEN [x |-> IcoErr(e), T |-> T]
       ELSE IF old /\ ~GroupOk(G.data) THEN [x |-> IcoErr(e), T |-> T]
       ELSE IF Len(ids) < n THEN [x |-> "insufficient_space", T |-> T]
       ELSE AddOne(A1, GKey(e), b)
IconRemove(T, e) ==
    LET G == ResByLang(T, GKey(e))
        M == Members(G.data)
        R1 == FoldLeft(LAMBDA A, i : IF A.x # "none" THEN A ELSE RemRes(A.T, [t |-> MemberType(e), id |-> M[i] \o <<0, 0>>, lang |-> e.lang]), [x |-> "none", ret |-> TRUE, T |-> T], [i \in 1..Len(M) |-> i])
    IN IF G.x # "none" THEN [x |-> G.x, ret |-> FALSE, T |-> T]
       ELSE IF ~GroupOk(G.data) THEN [x |-> IcoErr(e), ret |-> FALSE, T |-> T]
       ELSE IF R1.x # "none" THEN R1
       ELSE RemRes(R1.T, GKey(e))

IcoStep(env, e) ==
    LET T == Tree(env, e) IN
    CASE e.op = "ico_add" -> LET A == IconAdd(T, e) IN TreeAfter(env, e, A.T, A.x, {})
      [] e.op = "ico_rem" -> LET A == IconRemove(T, e) IN TreeAfter(env, e, A.T, A.x, IF e.exc = "none" THEN EqBad("removed", e.ret, A.ret) ELSE {})
      [] e.op = "ico_get" -> LET G == ReadGroup(T, e) IN
           Res(env, IF G.X # {} THEN (IF e.exc \in G.X THEN {} ELSE {"outcome " \o e.exc \o ", specified " \o ToString(G.X)}) ELSE IF e.exc # "none" THEN XBad(e, "none") ELSE ListBad("bytes of the file", e.v, G.v))
      [] e.op = "ico_single" -> LET G == ReadSingle(T, e) IN
           Res(env, IF G.X # {} THEN (IF e.exc \in G.X THEN {} ELSE {"outcome " \o e.exc \o ", specified " \o ToString(G.X)}) ELSE IF e.exc # "none" THEN XBad(e, "none") ELSE ListBad("bytes of the file", e.v, G.v))
IcoOpNames == {"ico_add", "ico_rem", "ico_get", "ico_single"}
=============================================================================

------------------------------ MODULE Resources ------------------------------
(* Resource trees: the reader, the writer, and the editing operations.      *)
(* A tree is [ch, ts, maj, min, ents]; an entry is                          *)
(* [named, id, name, k, cp, data, sub] with k = "data", "dir" or "none" and *)
(* sub the one-element sequence of its subdirectory.                        *)
EXTENDS Dirs

EmptyDir == [ch |-> Zeros(4), ts |-> Zeros(4), maj |-> <<0, 0>>, min |-> <<0, 0>>, ents |-> <<>>]
\* a recorded tree without its counters
RECURSIVE Strip(_)
Strip(d) == [ch |-> d.ch, ts |-> d.ts, maj |-> d.maj, min |-> d.min,
             ents |-> [i \in 1..Len(d.ents) |-> [d.ents[i] EXCEPT !.sub = [k \in 1..Len(@) |-> Strip(@[k])]]]]
RECURSIVE CountsOk(_)
CountsOk(d) == LET n == Len(SelectSeq(d.ents, LAMBDA x : x.named)) IN
               /\ d.nn = n /\ d.ni = Len(d.ents) - n
               /\ \A i \in 1..Len(d.ents) : d.ents[i].k = "dir" => CountsOk(d.ents[i].sub[1])

\* --- reading ------------------------------------------------------------------
High(w) == w[4] >= 128
Off31(w) == U32(<<w[1], w[2], w[3], w[4] % 128>>, 0)
\* a + b as addresses; -1: beyond the address space that the model represents (no section lies there)
Plus(a, b) == IF a >= BIG \/ b >= BIG \/ a + b >= BIG THEN -1 ELSE a + b
RdAt(img, a, n) == IF a < 0 THEN [ok |-> FALSE, b |-> <<>>] ELSE RdV(img, a, n)
RemAt(img, a) == IF a < 0 THEN -1 ELSE RemV(img, a)

MaxResDepth == 32      \* directories nested deeper are refused by the reader and by the writer
\* nc: every directory's header counts the named entries that are there
ResBad == [ok |-> FALSE, nc |-> FALSE, v |-> <<>>, seen |-> {}, ext |-> <<>>]
ResName(img, base, w) ==
    LET a == Plus(base, Off31(w))
        h == RdAt(img, a, 2)
        n == U16(h.b, 0)
        r == RdAt(img, Plus(a, 2), 2 * n)
        u == [k \in 1..n |-> U16(r.b, 2 * (k - 1))]
    IN IF ~h.ok THEN [ok |-> FALSE, v |-> <<>>, ext |-> <<>>]
       ELSE IF RemAt(img, Plus(a, 2)) < 2 * n THEN [ok |-> FALSE, v |-> <<>>, ext |-> <<>>]
       ELSE [ok |-> r.ok /\ \A k \in 1..n : ~(u[k] >= 55296 /\ u[k] <= 57343), v |-> u, ext |-> <<<<a, 2 + 2 * n>>>>]
ResData(img, base, w) ==
    LET a == Plus(base, Off31(w))
        h == RdAt(img, a, 16)
        p == U32(h.b, 0)
        n == U32(h.b, 4)
        r == RdAt(img, p, n)
    IN IF ~h.ok THEN [ok |-> FALSE, d |-> <<>>, cp |-> <<>>, ext |-> <<>>]
       ELSE IF n = 0 THEN [ok |-> TRUE, d |-> <<>>, cp |-> Raw(h.b, 8, 4), ext |-> <<<<a, 16>>>>]
       ELSE IF p >= BIG THEN [ok |-> FALSE, d |-> <<>>, cp |-> <<>>, ext |-> <<>>]
       ELSE IF RemV(img, p) < n THEN [ok |-> FALSE, d |-> <<>>, cp |-> <<>>, ext |-> <<>>]
       ELSE [ok |-> r.ok, d |-> r.b, cp |-> Raw(h.b, 8, 4), ext |-> <<<<a, 16>>, <<p, n>>>>]
RECURSIVE ResDirAt(_, _, _, _, _), ResEnts(_, _, _, _, _, _)
ResDirAt(img, base, off, seen, depth) ==
    LET a == Plus(base, off)
        h == RdAt(img, a, 16)
        n == U16(h.b, 12) + U16(h.b, 14)
        E == ResEnts(img, base, a + 16, n, [ok |-> TRUE, nc |-> TRUE, v |-> <<>>, seen |-> seen \cup {off}, ext |-> <<<<a, 16 + 8 * n>>>>], depth)
    IN IF off \in seen \/ depth > MaxResDepth THEN ResBad
       ELSE IF ~h.ok THEN ResBad
       ELSE IF ~E.ok THEN ResBad
       ELSE [ok |-> TRUE, nc |-> E.nc /\ U16(h.b, 12) = Len(SelectSeq(E.v, LAMBDA q : q.named)), v |-> <<[ch |-> Raw(h.b, 0, 4), ts |-> Raw(h.b, 4, 4), maj |-> Raw(h.b, 8, 2), min |-> Raw(h.b, 10, 2), ents |-> E.v]>>, seen |-> E.seen, ext |-> E.ext]
ResEnts(img, base, a, n, acc, depth) ==
    IF n = 0 THEN acc
    ELSE LET h == RdAt(img, a, 8)
             w1 == Raw(h.b, 0, 4)
             w2 == Raw(h.b, 4, 4)
             nm == ResName(img, base, w1)
             dt == ResData(img, base, w2)
             sd == ResDirAt(img, base, Off31(w2), acc.seen, depth + 1)
             key == IF High(w1) THEN [named |-> TRUE, id |-> Zeros(4), name |-> nm.v] ELSE [named |-> FALSE, id |-> w1, name |-> <<>>]
             kx == IF High(w1) THEN nm.ext ELSE <<>>
         IN IF ~h.ok THEN ResBad
            ELSE IF High(w1) /\ ~nm.ok THEN ResBad
            ELSE IF High(w2) THEN
                 (IF ~sd.ok THEN ResBad
                  ELSE ResEnts(img, base, a + 8, n - 1, [ok |-> TRUE, nc |-> acc.nc /\ sd.nc, v |-> Append(acc.v, [named |-> key.named, id |-> key.id, name |-> key.name, k |-> "dir", cp |-> Zeros(4), data |-> <<>>, sub |-> sd.v]), seen |-> sd.seen, ext |-> acc.ext \o kx \o sd.ext], depth))
            ELSE IF ~dt.ok THEN ResBad
                 ELSE ResEnts(img, base, a + 8, n - 1, [ok |-> TRUE, nc |-> acc.nc, v |-> Append(acc.v, [named |-> key.named, id |-> key.id, name |-> key.name, k |-> "data", cp |-> dt.cp, data |-> dt.d, sub |-> <<>>]), seen |-> acc.seen, ext |-> acc.ext \o kx \o dt.ext], depth)
ResTree(img) == IF ~HasList(img)[3] THEN [ok |-> TRUE, nc |-> TRUE, v |-> <<EmptyDir>>, seen |-> {}, ext |-> <<>>]
                ELSE ResDirAt(img, DirRva(img, 2), 0, {}, 1)

\* --- writing -------------------------------------------------------------------
\* unsigned order of 4-byte identifiers; names by code unit; names first
EntLt(x, y) == IF x.named /\ y.named THEN SeqLt(x.name, y.name)
               ELSE IF ~x.named /\ ~y.named THEN WLt(x.id, y.id)
               ELSE x.named
RECURSIVE SortTree(_)
SortTree(d) == [d EXCEPT !.ents = SortSeq([i \in 1..Len(@) |-> [@[i] EXCEPT !.sub = [k \in 1..Len(@) |-> SortTree(@[k])]]], EntLt)]
RECURSIVE TreeSizes(_)
\* <<bytes of directories, bytes of names>>
TreeSizes(d) == FoldLeft(LAMBDA acc, x : LET s == IF x.k = "dir" THEN TreeSizes(x.sub[1]) ELSE <<0, 0>>
                                          IN <<acc[1] + 8 + s[1], acc[2] + (IF x.named THEN 2 * Len(x.name) + 4 ELSE 0) + s[2]>>, <<16, 0>>, d.ents)
RECURSIVE DataEnd(_, _)
DataEnd(d, pos) == FoldLeft(LAMBDA p, x : IF x.k = "dir" THEN DataEnd(x.sub[1], p) ELSE AlignUp(p, 4) + 16 + Len(x.data), pos, d.ents)
RECURSIVE TreeOk(_, _)
\* every entry has content and can be written: identifiers have 31 bits, names are UTF-16 without surrogates, at most 65535 units
TreeOk(d, depth) == depth <= MaxResDepth /\ \A i \in 1..Len(d.ents) : LET x == d.ents[i] IN
    /\ x.k # "none" /\ (x.named => Len(x.name) <= 65535) /\ (~x.named => ~High(x.id))
    /\ (x.k = "dir" => TreeOk(x.sub[1], depth + 1))
RECURSIVE NamesOk(_)
NamesOk(d) == \A i \in 1..Len(d.ents) : LET x == d.ents[i] IN
    /\ (x.named => \A k \in 1..Len(x.name) : x.name[k] <= 65535 /\ ~(x.name[k] >= 55296 /\ x.name[k] <= 57343))
    /\ (x.k = "dir" => NamesOk(x.sub[1]))
RECURSIVE HasNone(_)
HasNone(d) == \E i \in 1..Len(d.ents) : d.ents[i].k = "none" \/ (d.ents[i].k = "dir" /\ HasNone(d.ents[i].sub[1]))

Tree(env, e) == LET t == Opt(e, "tree", 0) IN IF t \in DOMAIN env.tree THEN env.tree[t] ELSE EmptyDir
SetTree(env, e, d) == [env EXCEPT !.tree = Put(@, Opt(e, "tree", 0), d)]

ResRebuild(env, e) ==
    LET img == Im(env, e)
        i == Tgt(e)
        T == Tree(env, e)
        pos == AlignUp(Opt(e, "off", 0), 4)
        sz == TreeSizes(T)
        delta == pos - Opt(e, "off", 0)
        d1 == pos + delta + sz[1] + sz[2]
        S == SortTree(T)
        needed == DataEnd(S, d1) - pos
        X == IF IsDet(e) THEN {"section_is_not_attached"}
             ELSE (IF T.ents = <<>> \/ ~TreeOk(T, 1) THEN {"incorrect_resource_directory"} ELSE {})
                  \cup (IF HasNone(T) THEN {"resource_directory_entry_error"} ELSE {})
                  \cup (IF ~NamesOk(T) THEN {"encoding_convertion_error"} ELSE {})
                  \cup (IF ~HasNone(T) /\ NoRoom(img, i, pos + needed) THEN {"insufficient_space"} ELSE {})
        rva == SecVa(img, i) + pos
        E0 == WrittenAs(img, i, pos, needed, e.st)
        E1 == Recalculated(E0, i, Opt(e, "strip", TRUE))
        E == IF Opt(e, "save", TRUE) THEN SetDir(E1, 2, rva, needed) ELSE E1
        R == ResDirAt(E, rva, 0, {}, 1)
        x == R.ext
        content == IF X # {} THEN {} ELSE IF ~R.ok THEN {"written resource directory is malformed"}
                   ELSE (IF R.v[1] = S THEN {} ELSE {"written resource tree differs from the given one (sorted)"})
                        \cup (IF R.nc THEN {} ELSE {"a written resource directory miscounts its named entries"})
                        \cup {"resource structure outside the directory: " \o ToString(x[k]) : k \in {k \in 1..Len(x) : x[k][1] < rva \/ x[k][1] + x[k][2] > rva + needed}}
                        \cup {"resource structures overlap: " \o ToString(x[q[1]]) \o ToString(x[q[2]]) : q \in {q \in (1..Len(x)) \X (1..Len(x)) : q[1] < q[2] /\ x[q[1]][1] < x[q[2]][1] + x[q[2]][2] /\ x[q[2]][1] < x[q[1]][1] + x[q[1]][2]}}
        o == RebuildOutcome(env, e, X, rva, needed, E, content)
        after == Strip(e.tr)
    IN Res([o.env EXCEPT !.tree = Put(@, Opt(e, "tree", 0), after)],
           o.bad \cup (IF SortTree(after) = S THEN {} ELSE {"rebuild changed the content of the tree"}))

\* --- editing ---------------------------------------------------------------------
FindIdx(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE SetMin(S)
RootIs(e, x) == IF Has(e, "rn") THEN x.named /\ x.name = e.rn ELSE ~x.named /\ x.id = LE4(e.t)
KeyIs(e, x) == IF Has(e, "n") THEN x.named /\ x.name = e.n ELSE ~x.named /\ x.id = e.id
LangIs(e, x) == ~x.named /\ x.id = e.lang
RootEnt(e) == IF Has(e, "rn") THEN [named |-> TRUE, id |-> Zeros(4), name |-> e.rn] ELSE [named |-> FALSE, id |-> LE4(e.t), name |-> <<>>]
KeyEnt(e) == IF Has(e, "n") THEN [named |-> TRUE, id |-> Zeros(4), name |-> e.n] ELSE [named |-> FALSE, id |-> e.id, name |-> <<>>]
DirEnt(k, d) == [named |-> k.named, id |-> k.id, name |-> k.name, k |-> "dir", cp |-> Zeros(4), data |-> <<>>, sub |-> <<d>>]
DataEnt(k, cp, b) == [named |-> k.named, id |-> k.id, name |-> k.name, k |-> "data", cp |-> cp, data |-> b, sub |-> <<>>]
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
ERR == "resource_directory_entry_error"

\* the tree after adding data under (root, key, language); x: exception
AddRes(T, e, data) ==
    LET nd == [EmptyDir EXCEPT !.ts = Opt(e, "ts", Zeros(4))]
        i0 == FindIdx(T.ents, LAMBDA x : RootIs(e, x))
        T1 == IF i0 = 0 THEN [T EXCEPT !.ents = Append(@, DirEnt(RootEnt(e), nd))] ELSE T
        i == IF i0 = 0 THEN Len(T1.ents) ELSE i0
        R == T1.ents[i].sub[1]
        j0 == FindIdx(R.ents, LAMBDA x : KeyIs(e, x))
        R1 == IF j0 = 0 THEN [R EXCEPT !.ents = Append(@, DirEnt(KeyEnt(e), nd))] ELSE R
        j == IF j0 = 0 THEN Len(R1.ents) ELSE j0
        K == R1.ents[j].sub[1]
        l == FindIdx(K.ents, LAMBDA x : LangIs(e, x))
        K1 == IF l = 0 THEN K.ents ELSE DelAt(K.ents, l)
        K2 == [K EXCEPT !.ents = Append(K1, DataEnt([named |-> FALSE, id |-> e.lang, name |-> <<>>], Opt(e, "cp", Zeros(4)), data))]
        R2 == [R1 EXCEPT !.ents[j].sub = <<K2>>]
    IN IF T1.ents[i].k # "dir" THEN [x |-> ERR, T |-> T]
       ELSE IF R1.ents[j].k # "dir" THEN [x |-> ERR, T |-> T]
       ELSE [x |-> "none", T |-> [T1 EXCEPT !.ents[i].sub = <<R2>>]]

\* the tree after a removal; ret: whether something was removed
RemRes(T, e) ==
    LET no == [x |-> "none", ret |-> FALSE, T |-> T]
        err == [x |-> ERR, ret |-> FALSE, T |-> T]
        yes(t) == [x |-> "none", ret |-> TRUE, T |-> t]
        hasKey == Has(e, "n") \/ Has(e, "id")
        i == FindIdx(T.ents, LAMBDA x : RootIs(e, x))
        R == T.ents[i].sub[1]
        j == FindIdx(R.ents, LAMBDA x : KeyIs(e, x))
        K == R.ents[j].sub[1]
        l == FindIdx(K.ents, LAMBDA x : LangIs(e, x))
        dropRoot == [T EXCEPT !.ents = DelAt(@, i)]
        dropKey == IF Len(R.ents) = 1 THEN dropRoot ELSE [T EXCEPT !.ents[i].sub[1].ents = DelAt(@, j)]
    IN IF i = 0 THEN no
       ELSE IF ~hasKey THEN yes(dropRoot)
       ELSE IF T.ents[i].k # "dir" THEN err
       ELSE IF j = 0 THEN no
       ELSE IF ~Has(e, "lang") THEN yes(dropKey)
       ELSE IF R.ents[j].k # "dir" THEN err
       ELSE IF l = 0 THEN no
       ELSE IF Len(K.ents) = 1 THEN yes(dropKey)
       ELSE yes([T EXCEPT !.ents[i].sub[1].ents[j].sub[1].ents = DelAt(@, l)])

\* --- looking up --------------------------------------------------------------------
NF == "resource_directory_entry_not_found"
\* the directory under (root) or (root, key): [x, d]
SubOf(q, P(_)) == LET i == FindIdx(q, P) IN IF i = 0 THEN [x |-> NF, d |-> EmptyDir] ELSE IF q[i].k # "dir" THEN [x |-> ERR, d |-> EmptyDir] ELSE [x |-> "none", d |-> q[i].sub[1]]
RootDir(T, e) == SubOf(T.ents, LAMBDA x : RootIs(e, x))
KeyDir(T, e) == LET R == RootDir(T, e) IN IF R.x # "none" THEN R ELSE SubOf(R.d.ents, LAMBDA x : KeyIs(e, x))
NamesOf(d) == LET q == SelectSeq(d.ents, LAMBDA x : x.named) IN [i \in 1..Len(q) |-> q[i].name]
IdsOf(d) == LET q == SelectSeq(d.ents, LAMBDA x : ~x.named) IN [i \in 1..Len(q) |-> q[i].id]
\* data by language: [x, cp, data]
NoData(x) == [x |-> x, cp |-> <<>>, data |-> <<>>]
OfEnt(x) == IF x.k = "data" THEN [x |-> "none", cp |-> x.cp, data |-> x.data] ELSE NoData(ERR)
ResByLang(T, e) == LET K == KeyDir(T, e)  l == FindIdx(K.d.ents, LAMBDA x : LangIs(e, x)) IN
                   IF K.x # "none" THEN NoData(K.x) ELSE IF l = 0 THEN NoData(NF) ELSE OfEnt(K.d.ents[l])
ResByIndex(T, e) == LET K == KeyDir(T, e) IN
                    IF K.x # "none" THEN NoData(K.x) ELSE IF e.index >= Len(K.d.ents) THEN NoData("resource_data_entry_not_found") ELSE OfEnt(K.d.ents[e.index + 1])
\* entry at the end of a path of keys
RECURSIVE ByPath(_, _)
ByPath(d, path) ==
    LET k == path[1]
        i == FindIdx(d.ents, LAMBDA x : IF Has(k, "n") THEN x.named /\ x.name = k.n ELSE ~x.named /\ x.id = k.id)
    IN IF i = 0 THEN [x |-> NF, v |-> <<>>]
       ELSE IF Len(path) = 1 THEN [x |-> "none", v |-> <<d.ents[i]>>]
       ELSE IF d.ents[i].k # "dir" THEN [x |-> ERR, v |-> <<>>]
       ELSE ByPath(d.ents[i].sub[1], Tail(path))
\* entries by position
RECURSIVE AtPos(_, _)
AtPos(d, p) == IF Len(p) = 1 THEN d.ents[p[1] + 1] ELSE AtPos(d.ents[p[1] + 1].sub[1], Tail(p))

View2(env, e) ==
    LET T == Tree(env, e)
        out(x, bad) == Res(env, IF e.exc # x THEN XBad(e, x) ELSE IF x # "none" THEN {} ELSE bad)
        R == RootDir(T, e)
        K == KeyDir(T, e)
        D == IF e.fn = "get" THEN ResByLang(T, e) ELSE ResByIndex(T, e)
    IN CASE e.fn = "types" -> out("none", ListBad("resource types", e.v, IdsOf(T)))
         [] e.fn = "exists" -> out("none", EqBad("resource exists", e.v, FindIdx(T.ents, LAMBDA x : RootIs(e, x)) # 0))
         [] e.fn = "names" -> out(R.x, ListBad("resource names", e.v, NamesOf(R.d)))
         [] e.fn = "ids" -> out(R.x, ListBad("resource ids", e.v, IdsOf(R.d)))
         [] e.fn = "count" -> out(R.x, EqBad("resource count", e.v, Len(R.d.ents)))
         [] e.fn = "lcount" -> out(K.x, EqBad("language count", e.v, Len(IdsOf(K.d))))
         [] e.fn = "langs" -> out(K.x, ListBad("languages", e.v, IdsOf(K.d)))
         [] e.fn \in {"get", "geti"} -> out(D.x, EqBad("resource data", <<e.cp, e.v>>, <<D.cp, D.data>>))

TreeAfter(env, e, T, x, bad) ==
    Res(SetTree(env, e, Strip(e.tr)), (IF e.exc # x THEN XBad(e, x) ELSE bad) \cup (IF Strip(e.tr) = T THEN {} ELSE {"resource tree after the operation is not the expected one"}))

ResStep(env, e) ==
    LET T == Tree(env, e) IN
    CASE e.op = "res_read" ->
           LET R == ResTree(Im(env, e))
               bad == IF e.exc # "none" THEN {} ELSE (IF R.ok /\ Strip(e.dir) # R.v[1] THEN {"resource tree differs from the one stored"} ELSE {})
                        \cup (IF CountsOk(e.dir) THEN {} ELSE {"entry counts of a resource directory are wrong"})
           IN Res(IF e.exc = "none" THEN SetTree(env, e, Strip(e.dir)) ELSE env, ReadBad(e, R.ok, bad))
      [] e.op = "tree_set" -> LET r == TreeAfter(env, e, e.dir, "none", {}) IN Res(r.env, r.bad \cup (IF CountsOk(e.tr) THEN {} ELSE {"entry counts are wrong"}))
      [] e.op = "tree_get" -> TreeAfter(env, e, T, "none", {})
      [] e.op = "tree_by" -> LET B == ByPath(T, e.path) IN
           Res(env, IF e.exc # B.x THEN XBad(e, B.x) ELSE IF B.x # "none" THEN {} ELSE EqBad("entry", Strip([EmptyDir EXCEPT !.ents = <<e.v>>]).ents, B.v))
      [] e.op = "res_rebuild" -> ResRebuild(env, e)
      [] e.op = "rm_add" -> LET A == AddRes(T, e, IF Has(e, "from") THEN AtPos(T, e.from).data ELSE e.data) IN TreeAfter(env, e, A.T, A.x, {})
      [] e.op = "rm_rem" -> LET A == RemRes(T, e) IN TreeAfter(env, e, A.T, A.x, IF e.exc = "none" THEN EqBad("removed", e.ret, A.ret) ELSE {})
      [] e.op = "rv" -> View2(env, e)
ResOpNames == {"res_read", "tree_set", "tree_get", "tree_by", "res_rebuild", "rm_add", "rm_rem", "rv"}
=============================================================================

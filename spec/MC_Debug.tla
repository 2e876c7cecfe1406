------------------------------ MODULE MC_Debug ------------------------------
(* Debug, exception and .NET directories, put together record by record in  *)
(* a section or in the headers, and read back; also damaged.                *)
EXTENDS Debug, Json
CONSTANTS F, NDbg, NExc, Blobs, Excs, Wheres, Tails, Damage

VARIABLES dbg, exc, net, where, tail, ph, hurt
vars == <<dbg, exc, net, where, tail, ph, hurt>>

\* --- raw data as the tools write it, and what it means -------------------------------
Rsds(g, a, s) == [t |-> 2, b |-> <<82, 83, 68, 83>> \o g \o a \o s \o <<0>>, adv |-> 1, info |-> [guid |-> g, age |-> a, s |-> s]]
Nb10(g, a, s) == [t |-> 2, b |-> <<78, 66, 49, 48>> \o Zeros(4) \o g \o a \o s \o <<0>>, adv |-> 2, info |-> [sig |-> g, age |-> a, s |-> s]]
NbOld(x, n) == [t |-> 2, b |-> <<78, 66>> \o x \o Zeros(4), adv |-> n, info |-> EmptyMap]
MiscA(s) == [t |-> 4, b |-> LE4(1) \o LE4(13 + Len(s)) \o Zeros(4) \o s \o <<0>>, adv |-> 3, info |-> [dt |-> LE4(1), exe |-> TRUE, uni |-> FALSE, s |-> s]]
MiscU(u) == [t |-> 4, b |-> LE4(2) \o LE4(14 + 2 * Len(u)) \o <<1, 0, 0, 0>> \o FlattenSeq([i \in 1..Len(u) |-> LE2(u[i])]) \o <<0, 0>>, adv |-> 3,
             info |-> [dt |-> LE4(2), exe |-> FALSE, uni |-> TRUE, s |-> u]]
Other(t) == [t |-> t, b |-> <<1, 2, 3, 4, 5>>, adv |-> 0, info |-> EmptyMap]
\* COFF symbols: file names, functions (short or long names, with auxiliary records) and others
SymFile(s) == [k |-> "file", s |-> s, n |-> (Len(s) + 17) \div 18]
SymFun(s, a) == [k |-> "fun", s |-> s, n |-> a]
SymStat(s) == [k |-> "stat", s |-> s, n |-> 0]
SymOther(a) == [k |-> "other", s |-> <<111>>, n |-> a]
Long(x) == x.k \in {"fun", "stat"} /\ Len(x.s) > 8
StrOff(q, i) == FoldLeft(LAMBDA acc, x : IF Long(x) THEN acc + Len(x.s) + 1 ELSE acc, 4, SubSeq(q, 1, i - 1))
SymAt(q, i) == FoldLeft(LAMBDA acc, x : acc + 1 + x.n, 0, SubSeq(q, 1, i - 1))
SymBytes(q, i) == LET x == q[i] IN
    (IF x.k = "file" THEN Resize(<<46, 102, 105, 108, 101>>, 8) ELSE IF Long(x) THEN Zeros(4) \o LE4(StrOff(q, i)) ELSE Resize(x.s, 8))
    \o LE4(IF x.k = "file" THEN 0 ELSE 4096 + i)
    \o (IF x.k = "file" THEN <<254, 255>> ELSE IF x.k = "other" THEN LE2(3) ELSE LE2(1))
    \o LE2(IF x.k = "fun" THEN 32 ELSE 0)
    \o <<IF x.k = "file" THEN 103 ELSE IF x.k = "fun" THEN 2 ELSE IF x.k = "stat" THEN 3 ELSE 6, x.n>>
    \o (IF x.k = "file" THEN Resize(x.s, 18 * x.n) ELSE Strict([j \in 1..(18 * x.n) |-> j]))
Idx(q) == Strict([i \in 1..Len(q) |-> i])
CoffB(q, gap) == LET L == SelectSeq(q, Long) IN
    LE4(SymAt(q, Len(q) + 1)) \o LE4(32 + gap) \o FlattenSeq([k \in 1..6 |-> LE4(k + 2)]) \o Zeros(gap)
    \o FlattenSeq([i \in 1..Len(q) |-> SymBytes(q, i)])
    \o LE4(StrOff(q, Len(q) + 1)) \o FlattenSeq([i \in 1..Len(L) |-> L[i].s \o <<0>>])
CoffHead(q, gap) == <<LE4(SymAt(q, Len(q) + 1)), LE4(32 + gap), LE4(3), LE4(4), LE4(5), LE4(6), LE4(7), LE4(8)>>
CoffS(q, gap) == [t |-> 1, b |-> CoffB(q, gap), adv |-> 4,
    info |-> [h |-> CoffHead(q, gap),
              syms |-> LET want == SelectSeq(Idx(q), LAMBDA i : q[i].k # "other") IN
                       [j \in 1..Len(want) |-> LET i == want[j]  x == q[i] IN
                          IF x.k = "file" THEN [i |-> SymAt(q, i), cls |-> 103, type |-> 0, file |-> TRUE, s |-> x.s]
                          ELSE [i |-> SymAt(q, i), cls |-> IF x.k = "fun" THEN 2 ELSE 3, type |-> IF x.k = "fun" THEN 32 ELSE 0, file |-> FALSE, sec |-> 1, rva |-> LE4(4096 + i), s |-> x.s]]]]
Empty(t) == [t |-> t, b |-> <<>>, adv |-> 0, info |-> EmptyMap]
Str(n) == Strict([i \in 1..n |-> 96 + i])
G16 == Strict([i \in 1..16 |-> 200 + i])
BlobsA == {Rsds(G16, LE4(7), Str(3)), Rsds(G16, <<255, 255, 255, 255>>, <<>>), Nb10(<<1, 2, 3, 4>>, LE4(9), Str(5)), NbOld(<<48, 57>>, 5), MiscA(Str(4)), MiscU(<<97, 1234>>),
           CoffS(<<SymFile(Str(5)), SymFun(Str(8), 1), SymStat(Str(12))>>, 0), Other(3), Empty(2)}
BlobsB == {CoffS(q, g) : q \in {<<>>, <<SymFun(Str(9), 0)>>, <<SymStat(Str(1)), SymFun(Str(10), 2), SymFun(Str(11), 0)>>, <<SymFile(Str(18)), SymFile(Str(19))>>, <<SymOther(1), SymFile(<<>>), SymFun(Str(2), 1)>>, <<SymFile(Str(3)), SymOther(0)>>}, g \in {0, 4}}
BlobsC == {Rsds(G16, LE4(7), Str(2)), MiscU(<<98>>), CoffS(<<SymFile(Str(2)), SymFun(Str(9), 1)>>, 0)}
BlobsD == {NbOld(<<49, 49>>, 6), NbOld(<<48, 53>>, 7), NbOld(<<48, 56>>, 0), Other(11), Other(12), Other(9), MiscA(<<>>), MiscU(<<>>), Empty(1), Empty(4)}
\* a function from begin to end with the four bytes its unwind data starts with
Ex(b, e, u) == [b |-> b, e |-> e, u |-> u]
ExcsA == {Ex(LE4(4096), LE4(4100), <<1, 4, 1, 0>>), Ex(LE4(1), LE4(1), <<57, 0, 0, 37>>)}
ExcsB == ExcsA \cup {Ex(<<0, 0, 0, 255>>, <<255, 255, 255, 255>>, <<255, 255, 255, 255>>)}
TailsA == {"none", "null", "live", "short"}

\* --- the file ------------------------------------------------------------------------
HE == 64 + NtSize(F) + 40
Soh == AlignUp(HE + 600, 16)
Base == IF where = "hdr" THEN HE ELSE Soh
\* directories and what belongs to them, one after the other
OExc == 28 * Len(dbg) + 28
OUnw == OExc + 12 * Len(exc) + 12
ONet == OUnw + 4 * Len(exc) + 4
BlobAt(k) == FoldLeft(LAMBDA acc, x : acc + Len(x.b), 0, SubSeq(dbg, 1, k - 1))
DbgEntry(k, rd, at) == LE4(k) \o LE4(100 + k) \o LE2(k) \o LE2(2 * k) \o LE4(rd.t) \o LE4(Len(rd.b)) \o Zeros(4) \o LE4(at)
Area(ovl) == FlattenSeq([k \in 1..Len(dbg) |-> DbgEntry(k, dbg[k], ovl + BlobAt(k))])
             \* behind the directory: nothing, or what looks like one more entry
             \o (IF tail = "live" THEN DbgEntry(9, [t |-> 2, b |-> Zeros(8)], 64) ELSE Zeros(28))
             \o FlattenSeq([k \in 1..Len(exc) |-> exc[k].b \o exc[k].e \o LE4(Base + OUnw + 4 * (k - 1))])
             \o (IF tail = "live" THEN LE4(1) \o LE4(2) \o LE4(Base) ELSE Zeros(12))
             \o FlattenSeq([k \in 1..Len(exc) |-> exc[k].u]) \o Zeros(4)
             \o (IF net THEN LE4(72) \o Strict([i \in 1..68 |-> (7 * i) % 256]) ELSE <<>>)
Data(ovl) == IF where = "hdr" THEN <<1, 2, 3, 4>> ELSE Area(ovl)
DSize == 28 * Len(dbg) + (IF tail = "null" THEN 28 ELSE IF tail = "short" /\ Len(dbg) > 1 THEN -28 ELSE 0)
ESize == 12 * Len(exc) + (IF tail = "null" THEN 12 ELSE IF tail = "short" /\ Len(exc) > 1 THEN -12 ELSE 0)
Rs == AlignUp(IF where = "hdr" THEN 4 ELSE ONet + (IF net THEN 72 ELSE 0), 16)
Ovl == Soh + Rs
WithDir(nt, id, rva, size) == Patch(Patch(nt, oDir(F, id), LE4(rva)), oDir(F, id) + 4, LE4(size))
Nt1 == LET n == NewImage(F, 16, FALSE, 3).nt
           n1 == Patch(Patch(Patch(Patch(n, oFa, LE4(16)), oSoh, LE4(Soh)), oSoi, LE4(Soh + Rs)), oNos, LE2(1))
           n2 == IF dbg = <<>> THEN n1 ELSE WithDir(n1, 6, Base, DSize)
           n3 == IF exc = <<>> THEN n2 ELSE WithDir(n2, 3, Base + OExc, ESize)
       IN IF net THEN WithDir(n3, 14, Base + ONet, 72) ELSE n3
File0 == LET h == Resize(<<46, 100>>, 8) \o LE4(Rs) \o LE4(Soh) \o LE4(Rs) \o LE4(Soh) \o Zeros(12) \o <<64, 0, 0, 64>>
             d == SubSeq(NewImage(F, 16, FALSE, 3).dos, 1, 60) \o LE4(64)
         IN Pad(d \o Nt1 \o h \o (IF where = "hdr" THEN Area(Ovl) ELSE <<>>), Soh) \o Pad(Data(Ovl), Rs) \o FlattenSeq([k \in 1..Len(dbg) |-> dbg[k].b])
File == IF hurt = <<>> THEN File0 ELSE IF hurt[1] = "cut" THEN SubSeq(File0, 1, hurt[2]) ELSE Patch(File0, hurt[2], <<hurt[3]>>)

\* --- the machine -----------------------------------------------------------------------
Init == dbg = <<>> /\ exc = <<>> /\ net = FALSE /\ where \in Wheres /\ tail = "none" /\ ph = "build" /\ hurt = <<>>
AddDbg == ph = "build" /\ Len(dbg) < NDbg /\ \E x \in Blobs : dbg' = Append(dbg, x) /\ UNCHANGED <<exc, net, where, tail, ph, hurt>>
AddExc == ph = "build" /\ Len(exc) < NExc /\ \E x \in Excs : exc' = Append(exc, x) /\ UNCHANGED <<dbg, net, where, tail, ph, hurt>>
SetNet == ph = "build" /\ ~net /\ net' = TRUE /\ UNCHANGED <<dbg, exc, where, tail, ph, hurt>>
Finish == ph = "build" /\ \E x \in Tails : tail' = x /\ ph' = "done" /\ UNCHANGED <<dbg, exc, net, where, hurt>>
Spots == {p \in (Base..(Base + ONet + 15)) \cup (Ovl..(Len(File0) - 1)) \cup (64 + oDir(F, 6))..(64 + oDir(F, 6) + 7) \cup (64 + oDir(F, 3))..(64 + oDir(F, 3) + 7) : p < Len(File0)}
Hurt == /\ ph = "done" /\ Damage # {} /\ ph' = "hurt" /\ UNCHANGED <<dbg, exc, net, where, tail>>
        /\ \/ \E p \in Spots, x \in Damage : File0[p + 1] # x /\ hurt' = <<"byte", p, x>>
           \/ \E p \in Ovl..(Len(File0) - 1) : hurt' = <<"cut", p>>
Next == AddDbg \/ AddExc \/ SetNet \/ Finish \/ Hurt
Spec == Init /\ [][Next]_vars

\* --- what is read -----------------------------------------------------------------------
\* the image with the raw data kept when it is loaded
Loaded == LET f == File  im == LoadImage(f, 0, FALSE, 0)
              n == IF DirExists(im, 6) THEN DbgN(im).n ELSE 0
              H == SelectSeq(Strict([k \in 1..n |-> DbgEnt(im, k - 1).b]), LAMBDA b : DbgHasData(b) /\ DbgThere(f, b, FALSE))
              keep(acc, b) == IF \E i \in 1..Len(acc) : acc[i].p = Raw(b, 24, 4) THEN acc ELSE Append(acc, [p |-> Raw(b, 24, 4), d |-> Raw(f, U32(b, 24), U32(b, 16))])
          IN [im EXCEPT !.dbg = FoldLeft(keep, <<>>, H)]
Loads == ph = "done" => Violations(File, 0, FALSE, 0) = {}
NRead == IF tail = "short" /\ Len(dbg) > 1 THEN Len(dbg) - 1 ELSE Len(dbg)
Debugs == (ph = "done" /\ dbg # <<>>) =>
    LET im == Loaded IN
    /\ DbgN(im) = [ok |-> TRUE, n |-> NRead]
    /\ \A k \in 1..NRead : LET b == DbgEnt(im, k - 1).b  x == dbg[k] IN
          /\ \A i \in DbgData(im, b) : x.b # <<>> =>
                DbgRec(im, b, i) = [h |-> <<LE4(k), LE4(100 + k), LE4(k), LE4(2 * k), LE4(x.t), LE4(Len(x.b)), Zeros(4), LE4(Ovl + BlobAt(k))>>,
                                    ty |-> IF x.t \in 1..11 THEN x.t ELSE 0, adv |-> x.adv, info |-> x.info, only |-> TRUE]
          /\ (x.b # <<>> /\ x.t \in {1, 2, 4}) => DbgData(im, b) # {0}
    /\ DbgLoadBad(File, im, FALSE, im.dbg) = {}
NExcRead == IF tail = "short" /\ Len(exc) > 1 THEN Len(exc) - 1 ELSE Len(exc)
Exceptions == (ph = "done" /\ exc # <<>>) =>
    LET R == ExcList(Loaded, 0, <<>>) IN
    /\ R.ok /\ Len(R.v) = NExcRead
    /\ \A k \in 1..NExcRead : /\ R.v[k].a = <<exc[k].b, exc[k].e, LE4(Base + OUnw + 4 * (k - 1))>>
                              /\ R.v[k].u[1] + 8 * R.v[k].u[2] = exc[k].u[1] /\ R.v[k].u[3] = exc[k].u[2] /\ R.v[k].u[4] = exc[k].u[3]
                              /\ R.v[k].u[5] + 16 * R.v[k].u[6] = exc[k].u[4] /\ R.v[k].u[1] < 8 /\ R.v[k].u[5] < 16
NetRead == (ph = "done" /\ net) => LET r == RdV(Loaded, DirRva(Loaded, 14), 72) IN r.ok /\ r.b = LE4(72) \o Strict([i \in 1..68 |-> (7 * i) % 256])
\* whatever the damage, there is an answer, and no more records than the directory holds
Total == ph = "hurt" => (Violations(File, 0, FALSE, 0) # {} \/
    LET im == Loaded IN
    /\ DbgN(im).n * 28 <= Max2(DirSize(im, 6) + 27, 0) /\ 12 * Len(ExcList(im, 0, <<>>).v) <= DirSize(im, 3)
    /\ \A k \in 1..(IF DirExists(im, 6) THEN DbgN(im).n ELSE 0) : \A i \in DbgData(im, DbgEnt(im, k - 1).b) : DbgRec(im, DbgEnt(im, k - 1).b, i).adv \in -1..7)
Beh == ph \in {"done", "hurt"} => PrintT(<<"BEH", ToJson([file |-> File])>>)
=============================================================================

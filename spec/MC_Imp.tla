------------------------------- MODULE MC_Imp ------------------------------
(* Import directories: lists of libraries are rebuilt under the rebuilder's *)
(* options, rebuilt again from what was read or extended, under every       *)
(* combination of options, written and reloaded.                            *)
EXTENDS DirWrite, Write, Json
CONSTANTS F, Offs, Offs2, MaxL, LibNames, FuncLists, Placed, Deep, Combos

VARIABLES img, hist, call, libs, ph
vars == <<img, hist, call, libs, ph>>

N == WordN(F)
Data1 == [i \in 1..200 |-> 1 + i]
Data2 == [i \in 1..240 |-> 250 - i]
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 0, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET n == NewImage(F, 16, FALSE, 3)
            n2 == [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
Va(i) == SecVa(Img0, i)
ByName(s, h, v) == [name |-> s, hint |-> h, va |-> LE8(v)]
ByOrd(o, v) == [ord |-> o, va |-> LE8(v)]
FuncsA == {<<>>, <<ByName(<<102>>, 513, 77)>>, <<ByOrd(65535, 78)>>, <<ByOrd(0, 79), ByName(<<103, 104>>, 0, 80)>>}
FuncsC == {<<ByOrd(513, 79), ByName(<<103, 104>>, 300, 80)>>}
FuncsB == {<<>>, <<ByOrd(513, 79), ByName(<<103, 104>>, 300, 80), ByName(<<103>>, 2, 1000)>>}
NamesA == {<<97>>, <<98, 46, 99>>}
NamesB == {<<97, 98>>}
\* where existing tables lie, for the k-th library
PlaceOf(k, p) == IF p = 0 THEN EmptyMap ELSE IF p = 1 THEN [iat |-> LE4(Va(2) + 100 + 32 * k)] ELSE [iat |-> LE4(Va(2) + 100 + 32 * k), oiat |-> LE4(Va(2) + 4 + 32 * k)]
Lib(k, nm, fs, p) == [name |-> nm, ts |-> LE4(65539 * k), funcs |-> fs] @@ PlaceOf(k, p)
Bools == IF Combos = "all" THEN BOOLEAN ELSE {TRUE}

Init == img = Img0 /\ hist = Start /\ call = [op |-> "none", libs |-> <<>>] /\ libs = <<>> /\ ph = "list"
Grow == /\ ph = "list" /\ Len(call.libs) < MaxL /\ \E nm \in LibNames, fs \in FuncLists, p \in Placed : call' = [call EXCEPT !.libs = Append(@, Lib(Len(@) + 1, nm, fs, p))]
        /\ UNCHANGED <<img, hist, libs, ph>>
Go(c, L, next, wr) ==
    LET P == ImpPlan(img, c, L) IN
    /\ call' = c /\ hist' = Append(hist, c)
    /\ IF P.X = {} THEN img' = ImpWritten(img, c, L) /\ libs' = L /\ ph' = next ELSE img' = img /\ ph' = "refused" /\ libs' = L
\* tables in existing places are written too
Rebuild == /\ ph = "list" /\ \E s \in {0, 1}, o \in Offs, b \in BOOLEAN, f \in BOOLEAN, st \in BOOLEAN :
              /\ (s = 1 => \A k \in 1..Len(call.libs) : ~Has(call.libs[k], "iat"))
              /\ LET c == [op |-> "imp_rebuild", libs |-> call.libs, sec |-> s, off |-> o, build |-> b, keep |-> TRUE, rewrite |-> TRUE, fill |-> f, strip |-> st] IN Go(c, QLibs(c.libs), "built", TRUE)
\* what has been read is written into the other section, perhaps with one more library
More == <<[name |-> <<122>>, ts |-> LE4(1), funcs |-> <<ByName(<<113>>, 1, 9)>>]>>
Over == /\ ph = "built" /\ ImportTable(img).ok
        /\ \E o \in Offs2, b \in BOOLEAN, k \in BOOLEAN, r \in BOOLEAN, f \in BOOLEAN, z \in Bools, m \in {"imp_rebuild", "imp_append"} :
           LET old == ImportTable(img).v
               c == [op |-> m, libs |-> IF m = "imp_append" THEN More ELSE old, sec |-> IF call.sec = 0 THEN 1 ELSE 0, off |-> o, build |-> b, keep |-> k, rewrite |-> r, fill |-> f, zeroiat |-> z, strip |-> TRUE]
               L == IF m = "imp_append" THEN old \o QLibs(More) ELSE QLibs(old)
           IN /\ \A q \in 1..Len(old) : ~(\E x \in {old[q].iat, old[q].oiat} : ~WIsZero(x) /\ Where(img, U32(x, 0)) = c.sec + 1)
              /\ Go(c, L, "over", r)
Opts == [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE]
Reload == /\ ph \in {"built", "over"} /\ LET W == WriteFile(img, Opts) IN img' = LoadImage(W.out, 0, FALSE, 0)
          /\ hist' = hist \o <<[op |-> "rebuild"] @@ Opts, [op |-> "load", file |-> 0]>> /\ ph' = "loaded" /\ UNCHANGED <<call, libs>>
Next == Grow \/ Rebuild \/ Over \/ Reload
Spec == Init /\ [][Next]_vars

Env(im) == [img |-> 0 :> im]
Ev(im, c, L, E) == LET P == ImpPlan(im, c, L) IN c @@ [exc |-> "none", drva |-> P.rva, dsize |-> P.size, st |-> E]
Fresh == ph' \in {"built", "over"} /\ ph # ph'
Meets == [][Fresh => ImpBuild(Env(img), Ev(img, call', libs', img'), libs').bad = {}]_vars
\* what is read is what was asked for; addresses as asked for where there is a lookup table beside them
Plain(L) == [k \in 1..Len(L) |-> [name |-> L[k].name, ts |-> L[k].ts, funcs |-> [j \in 1..Len(L[k].funcs) |-> [x \in {"hn", "name", "hint", "ord"} |-> L[k].funcs[j][x]]]]]
\* keeping address tables as they are, but not the lookup tables beside them, loses what is imported
Lost == \E k \in 1..Len(libs) : ImpSaved(call, libs[k]) /\ ~call.rewrite /\ ~call.build /\ ~WIsZero(libs[k].oiat)
Reads == (ph \in {"built", "over", "loaded"} /\ ~Lost) =>
         LET t == ImportTable(img) IN
         /\ t.ok /\ Plain(t.v) = Plain(libs)
         /\ \A k \in 1..Len(libs) : (~WIsZero(t.v[k].oiat) /\ (~ImpSaved(call, libs[k]) \/ call.rewrite)) => [j \in 1..Len(libs[k].funcs) |-> t.v[k].funcs[j].va] = [j \in 1..Len(libs[k].funcs) |-> WExt(SubSeq(libs[k].funcs[j].va, 1, N), 8)]
         /\ \A k \in 1..Len(libs) : ImpSaved(call, libs[k]) => t.v[k].iat = libs[k].iat
         /\ \A k \in 1..Len(libs) : ~WIsZero(t.v[k].oiat) => call.build
Refused == ph = "refused" => call.sec = 0 \/ \E k \in 1..Len(libs) : ImpSaved(call, libs[k])
\* every byte that the writer has written and that is used is pinned by the requirements
Used(P, c, L) ==
    LET n == N
        lost == UNION {LET l == L[k]
                           a == Opt(c, "off", 0) + SumLen(SubSeq(L, 1, k - 1), LAMBDA q : Len(q.name) + 1 + SumLen(q.funcs, LAMBDA f : IF f.hn THEN Len(f.name) + 3 ELSE 0)) + Len(l.name) + 1
                       IN \* nothing refers to new function names when all tables stay as they are
                          IF ImpSaved(c, l) /\ ~c.rewrite /\ ~(c.build /\ c.fill /\ WIsZero(l.oiat)) THEN a..(a + SumLen(l.funcs, LAMBDA f : IF f.hn THEN Len(f.name) + 3 ELSE 0) - 1) ELSE {} : k \in 1..Len(L)}
        str == (Opt(c, "off", 0)..(Opt(c, "off", 0) + P.strs + 20 * (Len(L) + 1) - 1)) \ lost
        iat == UNION {LET a == P.posIat + SumLen(SubSeq(L, 1, k - 1), LAMBDA l : n * (1 + Len(l.funcs))) IN IF ImpSaved(c, L[k]) THEN {} ELSE a..(a + n * (1 + Len(L[k].funcs)) - 1) : k \in 1..Len(L)}
        int == UNION {LET a == P.posInt + SumLen(SubSeq(L, 1, k - 1), LAMBDA l : IF ImpNewInt(c, l) THEN n * (1 + Len(l.funcs)) ELSE 0) IN
                      IF ~(c.build /\ (~ImpSaved(c, L[k]) \/ (c.fill /\ WIsZero(L[k].oiat)))) THEN {} ELSE a..(a + n * (1 + Len(L[k].funcs)) - 1) : k \in 1..Len(L)}
    IN str \cup iat \cup int
Pinned == [][(Deep # {} /\ Fresh) => LET P == ImpPlan(img, call', libs') IN \A p \in Used(P, call', libs') : p < Len(img'.secs[P.i].d) =>
             \A v \in {(img'.secs[P.i].d[p + 1] + x) % 256 : x \in Deep} :
                ImpBuild(Env(img), Ev(img, call', libs', [img' EXCEPT !.secs[P.i].d[p + 1] = v]), libs').bad # {} \/ ~PrintT(<<"FREE", p, v, call'>>)]_vars
Beh == (ph \in {"refused", "loaded"}) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

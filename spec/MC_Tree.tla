------------------------------ MODULE MC_Tree -------------------------------
(* Resource directories: every small tree is rebuilt at several places; the *)
(* requirements can be met, reading gives back the sorted tree, also after  *)
(* the file has been written and loaded; no byte that matters is free.      *)
EXTENDS ResWrite, Write, Json
CONSTANTS F, Offs, MaxE, Keys, Lens, Bads, Deep, Strips

VARIABLES img, tree, hist, call, ph
vars == <<img, tree, hist, call, ph>>

Data1 == [i \in 1..200 |-> 1 + i]
Data2 == [i \in 1..60 |-> 250 - i]
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 0, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET n == NewImage(F, 16, FALSE, 3)
            n2 == [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
NameKey(n) == [named |-> TRUE, id |-> Zeros(4), name |-> n]
IdKey(i) == [named |-> FALSE, id |-> i, name |-> <<>>]
KeysA == {IdKey(LE4(1)), IdKey(LE4(256)), NameKey(<<97>>)}
KeysB == {IdKey(LE4(0)), NameKey(<<>>), NameKey(<<97, 1024>>)}
KeysD == {IdKey(LE4(0)), NameKey(<<66>>), NameKey(<<97, 1024>>)}
KeysC == {IdKey(LE4(7)), NameKey(<<66, 65>>), NameKey(<<66>>)}
Dir0(k) == [ch |-> LE4(300 + k), ts |-> LE4(1000 * k), maj |-> LE2(k), min |-> LE2(515)]
NewDir(k) == Dir0(k) @@ [ents |-> <<>>]

RECURSIVE CountE(_), Dirs(_, _), Extend(_, _, _)
CountE(d) == FoldLeft(LAMBDA a, x : a + 1 + (IF x.k = "dir" THEN CountE(x.sub[1]) ELSE 0), 0, d.ents)
\* paths to directories
Dirs(d, p) == {p} \cup UNION {IF d.ents[i].k = "dir" THEN Dirs(d.ents[i].sub[1], Append(p, i)) ELSE {} : i \in 1..Len(d.ents)}
Extend(d, p, x) == IF p = <<>> THEN [d EXCEPT !.ents = Append(@, x)] ELSE [d EXCEPT !.ents[p[1]].sub[1] = Extend(@, Tail(p), x)]
RECURSIVE DirAt(_, _)
DirAt(d, p) == IF p = <<>> THEN d ELSE DirAt(d.ents[p[1]].sub[1], Tail(p))

Init == img = Img0 /\ tree = NewDir(1) /\ hist = Start /\ call = [op |-> "none"] /\ ph = "tree"
Bytes(n) == [i \in 1..n |-> 40 + n + i]
Grow == /\ ph = "tree" /\ CountE(tree) < MaxE
        /\ \E p \in Dirs(tree, <<>>), k \in Keys :
           /\ \A i \in 1..Len(DirAt(tree, p).ents) : LET x == DirAt(tree, p).ents[i] IN ~(x.named = k.named /\ x.id = k.id /\ x.name = k.name)
           /\ \/ \E n \in Lens : tree' = Extend(tree, p, DataEnt(k, LE4(1252 + n), Bytes(n)))
              \/ tree' = Extend(tree, p, DirEnt(k, NewDir(2 + CountE(tree))))
        /\ UNCHANGED <<img, hist, call, ph>>
\* what cannot be written
Spoil == /\ ph = "tree" /\ Bads # {} /\ tree.ents # <<>>
         /\ \E p \in Dirs(tree, <<>>), b \in Bads :
            tree' = Extend(tree, p, IF b = "none" THEN [DataEnt(IdKey(LE4(77)), Zeros(4), <<>>) EXCEPT !.k = "none"]
                                    ELSE IF b = "id" THEN DataEnt(IdKey(<<7, 0, 0, 128>>), Zeros(4), <<>>)
                                    ELSE DataEnt(NameKey(<<55296>>), Zeros(4), <<>>))
         /\ ph' = "spoilt" /\ UNCHANGED <<img, hist, call>>
Places == {[sec |-> s, off |-> o, strip |-> st] : s \in {0, 1}, o \in Offs, st \in Strips}
Env(im) == [img |-> 0 :> im, tree |-> 0 :> tree]
\* the conditions under which a rebuild is refused
Refusal(im, c) == ResRebuild(Env(im), c @@ [exc |-> "", st |-> im, tr |-> tree, drva |-> 0, dsize |-> 0]).bad # {}
Outcome(im, c) == IF tree.ents = <<>> \/ ~TreeOk(tree, 1) \/ ~NamesOk(tree) THEN FALSE ELSE ~NoRoom(im, c.sec + 1, ResPlan(im, c, tree).pos + ResPlan(im, c, tree).size)
Rebuild == /\ ph \in {"tree", "spoilt"} /\ \E p \in Places :
              LET c == [op |-> "res_rebuild"] @@ p IN
              /\ call' = c /\ hist' = hist \o <<[op |-> "tree_set", dir |-> tree], c>> /\ UNCHANGED tree
              /\ IF Outcome(img, c) THEN img' = ResWritten(img, c, tree) /\ ph' = "written" ELSE img' = img /\ ph' = "refused"
Opts == [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE]
Reload == /\ ph = "written" /\ LET W == WriteFile(img, Opts) IN img' = LoadImage(W.out, 0, FALSE, 0)
          /\ hist' = hist \o <<[op |-> "res_read"], [op |-> "rebuild"] @@ Opts, [op |-> "load", file |-> 0], [op |-> "res_read"]>> /\ ph' = "loaded" /\ UNCHANGED <<tree, call>>
Next == Grow \/ Spoil \/ Rebuild \/ Reload
Spec == Init /\ [][Next]_vars

Ev(im, c, E, x) == LET P == ResPlan(im, c, tree) IN c @@ [exc |-> x, drva |-> P.rva, dsize |-> P.size, st |-> E, tr |-> SortTree(tree)]
Meets == [][ph' = "written" => ResRebuild(Env(img), Ev(img, call', img', "none")).bad = {}]_vars
Reasons == {"incorrect_resource_directory", "resource_directory_entry_error", "encoding_convertion_error", "insufficient_space"}
Refused == [][ph' = "refused" => /\ \E x \in Reasons : ResRebuild(Env(img), Ev(img, call', img', x)).bad = {}
                                 /\ ResRebuild(Env(img), Ev(img, call', img', "none")).bad # {}]_vars
Reads == ph \in {"written", "loaded"} =>
         LET R == ResTree(img)  S == SortTree(tree) IN
         /\ R.ok /\ R.nc /\ R.v[1] = S
         \* rebuilding what was read, in the same place, changes nothing
         /\ ResPlan(img, call, R.v[1]) = ResPlan(Img0, call, tree) /\ ResWritten(img, call, R.v[1]) = img
\* chunks do not meet, and lie in the directory
Apart == ph = "written" => LET C == ResChunks(Img0, call, tree)  P == ResPlan(Img0, call, tree) IN
         /\ \A i \in 1..Len(C) : C[i][1] >= P.pos /\ C[i][1] + Len(C[i][2]) <= P.pos + P.size
         /\ \A i, j \in 1..Len(C) : i < j => ~(C[i][1] < C[j][1] + Len(C[j][2]) /\ C[j][1] < C[i][1] + Len(C[i][2]))
\* free: the bytes between structures, terminators of names, the reserved word of a data entry, the place of empty data
Held(P, C) == UNION {LET q == C[i][1]  n == Len(C[i][2]) IN
                     IF q >= P.d1 THEN {q + x : x \in (0..n - 1) \ ((12..15) \cup (IF n = 16 THEN 0..3 ELSE {}))}
                     ELSE IF q >= P.names THEN q..q + n - 3 ELSE q..q + n - 1 : i \in 1..Len(C)}
Pinned == [][(Deep # {} /\ ph' = "written") => LET P == ResPlan(img, call', tree)  C == ResChunks(img, call', tree) IN
             \A p \in Held(P, C) : \A v \in {(img'.secs[P.i].d[p + 1] + x) % 256 : x \in Deep} :
                ResRebuild(Env(img), Ev(img, call', [img' EXCEPT !.secs[P.i].d[p + 1] = v], "none")).bad # {} \/ ~PrintT(<<"FREE", p - P.pos, v, call', tree>>)]_vars
Beh == (ph \in {"refused", "loaded"}) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

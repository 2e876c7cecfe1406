----------------------------- MODULE MC_DirTab ------------------------------
(* The data-directory table as a bounded map: setting, removing and         *)
(* stripping entries, changing their number and the flag words, in any      *)
(* order.                                                                   *)
EXTENDS ImgOps, Json
CONSTANTS F, Depth, Ids, Vals, Mins, Counts, Flags

VARIABLES img, n, m, ch, dch, ret, hist
vars == <<img, n, m, ch, dch, ret, hist>>
View == <<img, ret, Len(hist)>>
ValsA == {Zeros(4), LE4(1), <<0, 0, 0, 128>>}
ValsB == {Zeros(4), LE4(4096)}
FlagsA == {0, 65535}
FlagsB == {8192, 64, 41159}
Img0 == NewImage(F, 16, FALSE, 2)

\* abstract: n entries counted, all sixteen stored
Init == /\ img = Img0 /\ n = 16 /\ m = [i \in 0..15 |-> <<Zeros(4), Zeros(4)>>] /\ ch = U16(Img0.nt, oCh) /\ dch = U16(Img0.nt, oDch) /\ ret = FALSE
        /\ hist = <<[op |-> "new", fmt |-> F, sa |-> 16]>>
Env == [img |-> 0 :> img]
\* the call as the library makes it, by the meaning given in ImgOps
Do(c, r) == img' = ImgStep(Env, c @@ [exc |-> "none", ret |-> 0]).env.img[0] /\ hist' = Append(hist, c) /\ ret' = r
There(i) == i < n /\ ~WIsZero(m[i][1])
SetRva == \E i \in Ids, v \in Vals : LET ok == i < n IN
          /\ Do([op |-> "dir_setrva", id |-> i, v |-> WExt(v, 8)], ~ok)
          /\ m' = (IF ok THEN [m EXCEPT ![i][1] = v] ELSE m) /\ UNCHANGED <<n, ch, dch>>
SetSize == \E i \in Ids, v \in Vals : LET ok == i < n IN
           /\ Do([op |-> "dir_setsize", id |-> i, v |-> WExt(v, 8)], ~ok)
           /\ m' = (IF ok THEN [m EXCEPT ![i][2] = v] ELSE m) /\ UNCHANGED <<n, ch, dch>>
ClearDir == \E i \in Ids :
          /\ Do([op |-> "dir_remove", id |-> i], FALSE)
          /\ m' = IF There(i) THEN [m EXCEPT ![i] = <<Zeros(4), Zeros(4)>>] ELSE m
          /\ ch' = IF There(i) /\ i = 5 THEN Or16(ch, 1) ELSE IF There(i) /\ i = 0 THEN Clr16(ch, 8192) ELSE ch
          /\ dch' = IF There(i) /\ i = 5 THEN Clr16(dch, 64) ELSE dch
          /\ UNCHANGED n
Keeps(iat) == {i \in 0..15 : There(i) /\ ~(iat /\ i = 12)}
StripDirs == \E k \in Mins, iat \in BOOLEAN :
         LET want == CHOOSE x \in 0..n : /\ \A i \in Keeps(iat) : i < x
                                         /\ x >= Min2(k, n)
                                         /\ \A y \in 0..n : ((\A i \in Keeps(iat) : i < y) /\ y >= Min2(k, n)) => x <= y
         IN Do([op |-> "dir_strip", min |-> k, iat |-> iat], FALSE) /\ n' = want /\ UNCHANGED <<m, ch, dch>>
SetCount == \E k \in Counts : Do([op |-> "setf", f |-> "nrva", v |-> LE8(k)], FALSE) /\ n' = k /\ UNCHANGED <<m, ch, dch>>
Flag == \E x \in Flags : \/ Do([op |-> "setf", f |-> "ch", v |-> LE8(x)], FALSE) /\ ch' = x /\ UNCHANGED <<n, m, dch>>
                         \/ Do([op |-> "setf", f |-> "dch", v |-> LE8(x)], FALSE) /\ dch' = x /\ UNCHANGED <<n, m, ch>>
Next == Len(hist) <= Depth /\ (SetRva \/ SetSize \/ ClearDir \/ StripDirs \/ SetCount \/ Flag)
Spec == Init /\ [][Next]_vars

\* the header holds the abstract table and flags, and nothing else has changed
Header(im) == Patch(Patch(Patch(im.nt, oNrva(F), LE4(n)), oCh, LE2(ch)), oDch, LE2(dch))
Table == FlattenSeq([i \in 1..16 |-> m[i - 1][1] \o m[i - 1][2]])
Holds == img = [Img0 EXCEPT !.nt = Patch(Header(Img0), oDir(F, 0), Table)]
Asked == \A i \in 0..17 :
         /\ DirExists(img, i) = (i < n /\ ~WIsZero(IF i < 16 THEN m[i][1] ELSE Zeros(4)))
         /\ i < n => DirRvaW(img, i) = m[i][1] /\ DirSizeW(img, i) = m[i][2]
\* the predicates, in the order exports, imports, resources, exceptions, security, relocations, debug, TLS, load configuration, bound and delayed imports, .NET
Predicates == HasList(img) = <<There(0), There(1), There(2), There(3), There(4), There(5) /\ ch % 2 = 0, There(6), There(9), There(10), There(11), There(13), There(14)>>
\* a refused call changes nothing; stripping never loses a directory (but the IAT entry), nor makes the table longer
Refused == [][ret' => img' = img]_vars
Strips == [][hist'[Len(hist')].op = "dir_strip" => n' <= n /\ \A i \in 0..15 : (i # 12 /\ DirExists(img, i)) => DirExists(img', i)]_vars
Beh == (Len(hist) > Depth) => PrintT(<<"BEH", ToJson([calls |-> hist, ids |-> SetToSeq(Ids)])>>)
=============================================================================

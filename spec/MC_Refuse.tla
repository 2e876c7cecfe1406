------------------------------ MODULE MC_Refuse ------------------------------
(* Every operation that can be refused, with what is just inside and just   *)
(* outside of its conditions, after whatever was done to the image before.  *)
(* A refused call leaves the image alone; one that is carried out touches   *)
(* its section, its directory entry and the image size only.                *)
EXTENDS Write, DirWrite, Relocs, Tls, LoadCfg, Bound, Json
CONSTANTS F, Depth, Kinds, Edits, Offs, Saves

VARIABLES img, k, last, hist
vars == <<img, k, last, hist>>
View == <<img, k, last>>

N == WordN(F)
Data1 == [i \in 1..150 |-> 1 + (i % 200)] \o <<>>
Data2 == [i \in 1..60 |-> 201 + (i % 50)] \o <<>>
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 0, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>],
            [op |-> "det_new", det |-> 0, raw |-> Data1, vs |-> 200, name |-> <<51>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET n == NewImage(F, 16, FALSE, 3)
            n2 == [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
Va(i) == SecVa(Img0, i)
Room(i) == AlignUp(SecRs(img, i), 16)

\* --- what is asked for ----------------------------------------------------------------
Fn(o, n) == [ord |-> o, name |-> n, rva |-> LE4(16)]
Lib(more) == [name |-> <<97>>, ts |-> LE4(1), funcs |-> <<[name |-> <<102>>, hint |-> 1, va |-> LE8(5)]>>] @@ more
Arg(kind) ==
    CASE kind = "exp" -> [op |-> "exp_rebuild", info |-> [name |-> <<100>>], funcs |-> <<Fn(1, <<97>>), Fn(2, <<98>>)>>]
      [] kind = "expo" -> [op |-> "exp_rebuild", info |-> [name |-> <<100>>], funcs |-> <<Fn(1, <<97>>), Fn(1, <<98>>)>>]
      [] kind = "expn" -> [op |-> "exp_rebuild", info |-> [name |-> <<100>>], funcs |-> <<Fn(1, <<97>>), Fn(2, <<99>>), Fn(3, <<97>>)>>]
      [] kind = "imp" -> [op |-> "imp_rebuild", libs |-> <<Lib(EmptyMap)>>]
      \* an address table that is to be rewritten where there is no room for it, or which lies nowhere
      [] kind = "impt" -> [op |-> "imp_rebuild", rewrite |-> TRUE, libs |-> <<Lib(EmptyMap), Lib([iat |-> LE4(Va(1) + 160 - N)])>>]
      [] kind = "impx" -> [op |-> "imp_rebuild", rewrite |-> TRUE, libs |-> <<Lib(EmptyMap), Lib([iat |-> LE4(4096)])>>]
      [] kind = "rel" -> [op |-> "rel_rebuild", tables |-> <<[rva |-> LE4(Va(1)), items |-> <<<<8, 3>>, <<20, 3>>>>]>>]
      [] kind = "bnd" -> [op |-> "bound_rebuild", mods |-> <<[name |-> <<97, 98>>, ts |-> LE4(7), refs |-> <<[name |-> <<99>>, ts |-> LE4(5)]>>]>>]
      [] kind = "tls" -> [op |-> "tls_rebuild", tls |-> [start |-> LE4(Va(1) + 100), end |-> LE4(Va(1) + 104), index |-> LE4(Va(1) + 4), cb |-> LE4(Va(1) + 120), zf |-> LE4(5), ch |-> LE4(0), data |-> <<1, 2, 3, 4>>, cbs |-> <<LE4(Va(1))>>]]
      \* callbacks at the end of a section, data that lies nowhere, data too long
      [] kind = "tlsc" -> [op |-> "tls_rebuild", tls |-> [start |-> LE4(Va(1) + 100), end |-> LE4(Va(1) + 104), index |-> LE4(0), cb |-> LE4(Va(1) + 160 - N), data |-> <<1, 2, 3, 4>>, cbs |-> <<LE4(Va(1))>>]]
      [] kind = "tlsx" -> [op |-> "tls_rebuild", wcb |-> FALSE, tls |-> [start |-> LE4(8192), end |-> LE4(8196), index |-> LE4(0), cb |-> LE4(0), data |-> <<1, 2, 3, 4>>, cbs |-> <<>>]]
      [] kind = "tlsd" -> [op |-> "tls_rebuild", wcb |-> FALSE, tls |-> [start |-> LE4(Va(1) + 100), end |-> LE4(Va(1) + 200), index |-> LE4(0), cb |-> LE4(0), data |-> Zeros(100), cbs |-> <<>>]]
      [] kind = "cfg" -> [op |-> "cfg_rebuild", cfg |-> [ts |-> LE4(9), maj |-> LE2(1), seh |-> <<LE4(Va(1) + 16)>>, lock |-> <<LE4(Va(1) + 12)>>]]
Plan(im, c) == CASE c.op = "exp_rebuild" -> ExpPlan(im, c) [] c.op = "imp_rebuild" -> ImpPlan(im, c, QLibs(c.libs)) [] c.op = "rel_rebuild" -> RelPlan(im, c)
                 [] c.op = "bound_rebuild" -> BoundPlan(im, c) [] c.op = "tls_rebuild" -> TlsPlan(im, c) [] OTHER -> CfgPlan(im, c)
After(im, c) == CASE c.op = "exp_rebuild" -> ExpWritten(im, c) [] c.op = "imp_rebuild" -> ImpWritten(im, c, QLibs(c.libs)) [] OTHER -> Plan(im, c).E
DirOf(c) == CASE c.op = "exp_rebuild" -> 0 [] c.op = "imp_rebuild" -> 1 [] c.op = "rel_rebuild" -> 5 [] c.op = "bound_rebuild" -> 11 [] c.op = "tls_rebuild" -> 9 [] OTHER -> 10
\* bytes that the section must have room for
Sz(c) == LET P == Plan(img, c @@ [sec |-> 1]) IN IF c.op = "imp_rebuild" THEN P.needed ELSE IF c.op = "cfg_rebuild" THEN CfgSize(F) + 4 + 2 * N ELSE P.size
Pos(c) == IF c.op \in {"imp_rebuild"} THEN c.off ELSE IF c.op \in {"tls_rebuild", "cfg_rebuild"} THEN AlignUp(c.off, N) ELSE AlignUp(c.off, 4)

Init == img = Img0 /\ k = 0 /\ last = [op |-> "none", x |-> {}] /\ hist = Start
Note(c, X) == hist' = Append(hist, c) /\ k' = k + 1 /\ last' = [op |-> c.op, x |-> X, c |-> c]
Attempt(c) == LET X == Plan(img, c).X IN Note(c, X) /\ img' = IF X # {} THEN img ELSE After(img, c)
Rebuild == \E kind \in Kinds, sv \in Saves : LET a == Arg(kind) @@ [save |-> sv] IN
           \/ Attempt(a @@ [det |-> 0, off |-> 0])
           \/ \E s \in {0, 1}, o \in Offs : LET off == IF o < 1000 THEN o ELSE Room(s + 1) - Sz(a) + o - 1004 IN off >= 0 /\ Attempt(a @@ [sec |-> s, off |-> off])
\* edits of the section table, most of them refused
Lays(c, r) == Note(c, IF r.exc = "none" THEN {} ELSE {r.exc}) /\ img' = IF r.exc # "none" THEN img ELSE UnLay(img, r.L, [h |-> BlankHdr, d |-> <<>>])
Edit == \/ "fa" \in Edits /\ \E fa \in {0, 1, 16, 512, 1000}, o \in {"setfa", "realign_file"} : LET c == [op |-> o, fa |-> fa] IN Lays(c, IF o = "setfa" THEN SetFileAlignment(Lay(img), fa) ELSE RealignFile(Lay(img), fa))
        \/ "vs" \in Edits /\ \E s \in {0, 1}, v \in {0, 48, 400} : LET c == [op |-> "setvs", sec |-> s, vs |-> v] IN Lays(c, SetVirtualSize(Lay(img), s + 1, Sec(img.secs[s + 1]), v))
        \/ "expand" \in Edits /\ \E s \in {0, 1}, z \in {0, 1, 100, 400}, kd \in {"raw", "virtual"} : LET c == [op |-> "expand", sec |-> s, rel |-> 0, size |-> z, kind |-> kd] IN
              Lays(c, Expand(Lay(img), s + 1, Sec(img.secs[s + 1]), SecVa(img, s + 1), z, kd))
        \/ "recalc" \in Edits /\ \E s \in {0, 1}, st \in BOOLEAN : LET c == [op |-> "recalc", sec |-> s, strip |-> st] IN Lays(c, Recalc(Lay(img), s + 1, Sec(img.secs[s + 1]), st))
        \/ "realign" \in Edits /\ \E i \in {0, 1, 2, 7} : Lays([op |-> "realign_sec", idx |-> i], RealignSection(Lay(img), i + 1))
        \/ "add" \in Edits /\ LET c == [op |-> "addsec", raw |-> <<>>, vs |-> 0, name |-> <<65>>] IN Lays(c, Add(Lay(img), Sec(MkSec(c)), TRUE))
        \/ "dir" \in Edits /\ \E id \in {15, 16, 255}, o \in {"dir_setrva", "dir_setsize"} : LET c == [op |-> o, id |-> id, v |-> LE8(77)] IN
              IF id >= ImgNrva(img) THEN Note(c, {"directory_does_not_exist"}) /\ img' = img
              ELSE Note(c, {}) /\ img' = [img EXCEPT !.nt = Patch(@, oDir(F, id) + (IF o = "dir_setrva" THEN 0 ELSE 4), LE4(77))]
        \* moving the image with relocations of addresses that it does not have
        \/ "rebase" \in Edits /\ \E w \in {<<Va(1)>>, <<Va(1), 4096>>, <<8192>>, <<Va(1), Va(2) + 62>>} :
              LET T == [i \in 1..Len(w) |-> [rva |-> LE4(w[i]), items |-> <<<<0, 3>>>>]] \o <<>>
                  c == [op |-> "rebase", tables |-> T, base |-> <<0, 0, 5, 1, 0, 0, 0, 0>>]
                  ok == \A i \in 1..Len(RelFlat(T)) : RelTarget(img, RelFlat(T)[i]).ok
              IN Note(c, IF ok THEN {} ELSE {"refused"}) /\ img' = IF ok THEN Rebased(img, RelFlat(T), c.base) ELSE img
Next == k < Depth /\ (Rebuild \/ Edit)
Spec == Init /\ [][Next]_vars

Rebuilds == {"exp_rebuild", "imp_rebuild", "rel_rebuild", "bound_rebuild", "tls_rebuild", "cfg_rebuild"}
Refused == [][last'.x # {} => img' = img]_vars
\* a section behind which there is another one takes nothing it has no room for; everything else is a matter of what is asked for
Space == [][last'.op \in Rebuilds => LET c == last'.c IN
            /\ (Has(c, "det") = (last'.x = {"section_is_not_attached"}))
            /\ (Has(c, "sec") /\ c.sec = 0 /\ Pos(c) + Sz(c) > Room(1)) => "insufficient_space" \in last'.x
            /\ (Has(c, "sec") /\ c.op \in {"rel_rebuild", "bound_rebuild", "cfg_rebuild"}) => ((last'.x # {}) = (c.sec = 0 /\ (Pos(c) + Sz(c) > Room(1) \/ img.secs[1].d = <<>>)))]_vars
\* a larger offset is never less of a problem
Monotone == [][(last'.op \in Rebuilds /\ last'.x = {"insufficient_space"} /\ Has(last'.c, "sec")) => Plan(img, [last'.c EXCEPT !.off = @ + 4]).X # {}]_vars
\* what is carried out changes nothing else
Frame == [][(last'.op \in Rebuilds /\ last'.x = {}) => LET c == last'.c  id == DirOf(c) IN
            /\ img'.dos = img.dos /\ img'.hdr = img.hdr /\ img'.stub = img.stub /\ Len(img'.secs) = Len(img.secs)
            /\ \A i \in 1..Len(img.secs) : (i # c.sec + 1 /\ c.op \notin {"tls_rebuild", "imp_rebuild"}) => img'.secs[i] = img.secs[i]
            /\ \A i \in 1..Len(img.secs) : SecVa(img', i) = SecVa(img, i)
            /\ \A i \in 0..15 : (i # id \/ ~c.save) => DirRvaW(img', i) = DirRvaW(img, i) /\ DirSizeW(img', i) = DirSizeW(img, i)
            /\ \A o \in 0..(oDir(F, 0) - 1) : img'.nt[o + 1] # img.nt[o + 1] => o \in oSoi..(oSoi + 3) \cup (IF c.op = "rel_rebuild" THEN oCh..(oCh + 1) \cup oDch..(oDch + 1) ELSE {})]_vars
Beh == k >= Depth => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
KindsA == {"exp", "expo", "expn", "imp", "impt", "impx", "rel", "bnd", "tls", "tlsc", "tlsx", "tlsd", "cfg"}
EditsA == {"fa", "vs", "expand", "recalc", "realign", "add", "dir", "rebase"}
=============================================================================

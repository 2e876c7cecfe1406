------------------------------ MODULE MC_Dirs -------------------------------
(* Directories in one image: relocations, bound imports, TLS and load       *)
(* configuration are rebuilt into either section at various places, the     *)
(* image is moved to another base, written and loaded again.  Whatever has  *)
(* been written and not been overwritten stays readable as it was written.  *)
EXTENDS Write, Relocs, Tls, LoadCfg, Bound, Json
CONSTANTS F, Depth, Offs, Strips, Rich

VARIABLES img, live, last, hist
vars == <<img, live, last, hist>>
View == <<img, live, last, Len(hist)>>

N == WordN(F)
Data1 == [i \in 1..304 |-> IF i <= 130 THEN 1 + (i % 200) ELSE 0]
Data2 == [i \in 1..60 |-> 201 + (i % 50)]
Start == << [op |-> "new", fmt |-> F, sa |-> 16, subsys |-> 3], [op |-> "setfa_raw", fa |-> 16], [op |-> "setf", f |-> "soh", v |-> LE8(480)], [op |-> "upd_size"],
            [op |-> "addsec", raw |-> Data1, vs |-> 0, name |-> <<49>>], [op |-> "addsec", raw |-> Data2, vs |-> 0, name |-> <<50>>] >>
AddOne(im, c) == LET x == MkSec(c) IN UnLay(im, Add(Lay(im), Sec(x), TRUE).L, x)
Img0 == LET n == NewImage(F, 16, FALSE, 3)
            n2 == [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(16)), oSoh, LE4(480)), oSoi, LE4(480))]
        IN AddOne(AddOne(n2, Start[5]), Start[6])
Va(i) == SecVa(Img0, i)
Init == img = Img0 /\ live = EmptyMap /\ last = [op |-> "none", ext |-> {}, id |-> -1, ok |-> TRUE] /\ hist = Start

\* extents [section, from, to) that share bytes
Meet(x, y) == x[1] = y[1] /\ x[2] < y[3] /\ y[2] < x[3]
Keep(ext) == [k \in {k \in DOMAIN live : \A x \in live[k].ext, y \in ext : ~Meet(x, y)} |-> live[k]]
\* a rebuild: call, directory, plan, what is to be read afterwards, other places written to
Do(call, id, P, val, more) ==
    LET s == call.sec + 1
        ext == {<<s, P.rva - SecVa(img, s), P.rva - SecVa(img, s) + P.size>>} \cup more
    IN IF P.X # {} THEN /\ UNCHANGED <<img, live>> /\ last' = [op |-> call.op, ext |-> {}, id |-> id, ok |-> FALSE] /\ hist' = Append(hist, call)
       ELSE /\ img' = P.E
            /\ live' = [k \in (DOMAIN Keep(ext) \ {id}) \cup {id} |-> IF k = id THEN [val |-> val, ext |-> ext] ELSE live[k]]
            /\ last' = [op |-> call.op, ext |-> ext, id |-> id, ok |-> TRUE]
            /\ hist' = Append(hist, call)
Places == {[sec |-> s - 1, off |-> o, strip |-> st] : s \in {1, 2}, o \in Offs, st \in Strips}

Tables(k) == IF k = 1 THEN <<[rva |-> LE4(Va(1)), items |-> <<<<8, 3>>>>]>>
             ELSE <<[rva |-> LE4(Va(1)), items |-> <<<<0, 3>>, <<9, 3>>, <<20, 1>>>>], [rva |-> LE4(Va(2)), items |-> <<<<1, 2>>, <<0, 0>>>>]>>
RelRb == \E p \in Places, k \in {1} \cup Rich : LET c == [op |-> "rel_rebuild", tables |-> Tables(k)] @@ p IN Do(c, 5, RelPlan(img, c), RelPadded(Tables(k)), {})
Mods(k) == IF k = 1 THEN <<[name |-> <<97>>, ts |-> LE4(77), refs |-> <<>>]>>
           ELSE <<[name |-> <<97, 98>>, ts |-> LE4(0), refs |-> <<[name |-> <<99>>, ts |-> LE4(5)], [name |-> <<>>, ts |-> LE4(6)]>>], [name |-> <<100>>, ts |-> LE4(7), refs |-> <<>>]>>
ModsRead(M) == [k \in 1..Len(M) |-> [name |-> M[k].name, ts |-> M[k].ts, n |-> Len(M[k].refs), refs |-> [j \in 1..Len(M[k].refs) |-> [name |-> M[k].refs[j].name, ts |-> M[k].refs[j].ts]]]]
BndRb == \E p \in Places, k \in {1} \cup Rich : LET c == [op |-> "bound_rebuild", mods |-> Mods(k)] @@ p IN Do(c, 11, BoundPlan(img, c), ModsRead(Mods(k)), {})
\* TLS data in section s, callbacks in section t
TlsOf(s, t) == [start |-> LE4(Va(s) + 40), end |-> LE4(Va(s) + 46), index |-> LE4(Va(1) + 4), cb |-> LE4(Va(t) + 20), zf |-> LE4(5), ch |-> LE4(0), data |-> <<1, 2, 3, 4, 5, 0>>, cbs |-> <<LE4(Va(1) + 256)>>]
TlsExt(s, t) == {<<s, 40, 46>>, <<t, 20, 20 + 2 * N>>}
TlsRb == \E p \in Places, s \in {2} \cup Rich, t \in {1, 2} : LET c == [op |-> "tls_rebuild", tls |-> TlsOf((s % 2) + 1, t)] @@ p IN
         \* places that share bytes are not what a caller wants
         LET P == TlsPlan(img, c)  own == <<p.sec + 1, P.rva - Va(p.sec + 1), P.rva - Va(p.sec + 1) + P.size>> IN
         /\ P.X = {} => \A x \in TlsExt((s % 2) + 1, t) : ~Meet(x, own)
         /\ Do(c, 9, P, TlsOf((s % 2) + 1, t), TlsExt((s % 2) + 1, t))
CfgOf(k) == IF k = 1 THEN [ts |-> LE4(9), maj |-> LE2(1), seh |-> <<LE4(Va(1) + 16), LE4(Va(1) + 4)>>, lock |-> <<LE4(Va(1) + 12)>>] ELSE [gfc |-> LE4(3), sck |-> LE8(Va(2)), seh |-> <<>>, lock |-> <<>>]
CfgExt(P, p, q) == {<<p.sec + 1, P.rva - Va(p.sec + 1), P.rva - Va(p.sec + 1) + CfgSize(F) + 4 * Len(q.seh) + N * (Len(q.lock) + 1)>>}
\* what reading gives: the fields as written
CfgVal(E) == CfgTable(E).t
CfgWant(q, t) == /\ t.seh = SortSeq(q.seh, LAMBDA a, b : WLt(a, b)) /\ t.lock = q.lock
                 /\ \A k \in DOMAIN CfgCommon \cup {"sck"} : t[k] = WExt(IF Has(q, k) THEN q[k] ELSE <<0>>, CfgW(k))
CfgRb == \E p \in Places, k \in {1} \cup Rich : LET c == [op |-> "cfg_rebuild", cfg |-> CfgOf(k)] @@ p  P == CfgPlan(img, c) IN
         Do(c, 10, P, CfgOf(k), CfgExt(P, p, CfgOf(k)))

\* moving the image: the relocations cover every address the live structures hold
Words == (IF 9 \in DOMAIN live /\ TlsTable(img).ok THEN LET r == DirRva(img, 9) IN {r, r + N, r + 2 * N, r + 3 * N, U32(live[9].val.cb, 0)} ELSE {})
         \cup (IF 10 \in DOMAIN live /\ CfgTable(img).ok
               THEN LET r == DirRva(img, 10) IN {r + CfgF(F)[k][1] : k \in {k \in {"set", "lpt", "sck"} : ~WIsZero(Raw(RdV(img, r, CfgSize(F)).b, CfgF(F)[k][1], N))}}
                    \cup (IF live[10].val.lock # <<>> THEN {r + CfgSize(F) + 4 * Len(live[10].val.seh)} ELSE {})
               ELSE {})
Covering == <<[rva |-> LE4(0), items |-> [k \in 1..Cardinality(Words) |-> <<SetToSortSeq(Words, <)[k], IF F = 32 THEN 3 ELSE 10>>]]>>
Base2 == IF F = 32 THEN <<0, 0, 5, 127, 0, 0, 0, 0>> ELSE <<0, 0, 240, 255, 255, 127, 0, 0>>
Rebase == /\ last.op # "rebase" /\ \A k \in 1..Len(RelFlat(Covering)) : RelTarget(img, RelFlat(Covering)[k]).ok
          /\ img' = Rebased(img, RelFlat(Covering), Base2)
          /\ live' = IF 10 \in DOMAIN live /\ Has(live[10].val, "sck") THEN [live EXCEPT ![10].val.sck = WExt(SubSeq(WAdd(live[10].val.sck, WSub(WExt(SubSeq(Base2, 1, N), 8), WExt(ImgBase(img), 8))), 1, N), 8)] ELSE live
          /\ last' = [op |-> "rebase", ext |-> {}, id |-> -1, ok |-> TRUE]
          /\ hist' = Append(hist, [op |-> "rebase", tables |-> Covering, base |-> Base2])
Opts == [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE]
Reload == /\ last.op # "reload" /\ WriteExc(img, Opts) = "none"
          /\ LET W == WriteFile(img, Opts) IN Reloadable(W.after) /\ img' = LoadImage(W.out, 0, FALSE, 0)
          /\ UNCHANGED live
          /\ last' = [op |-> "reload", ext |-> {}, id |-> -1, ok |-> TRUE]
          /\ hist' = hist \o <<[op |-> "rebuild"] @@ Opts, [op |-> "load", file |-> 0]>>
Next == Len(hist) < Depth + 6 /\ (RelRb \/ BndRb \/ TlsRb \/ CfgRb \/ Rebase \/ Reload)
Spec == Init /\ [][Next]_vars

\* what was written and not overwritten is read as it was written
Rel5 == 5 \in DOMAIN live => RelocTables(img, TRUE) = [ok |-> TRUE, v |-> live[5].val]
Bnd11 == 11 \in DOMAIN live => BoundTable(img) = [ok |-> TRUE, v |-> live[11].val]
Tls9 == 9 \in DOMAIN live => TlsTable(img).ok /\ TlsTable(img).t = live[9].val
Cfg10 == 10 \in DOMAIN live => CfgTable(img).ok /\ CfgWant(live[10].val, CfgTable(img).t)
\* a created image that has been edited stays well-formed and can be written
Fine == WellFormed(Lay(img)) /\ ReloadOk(img) /\ WriteExc(img, Opts) = "none" /\ Reloadable(img)
\* nothing else is touched: other directories, other sections' contents, the bytes around what was written
Touched(i, p) == \E x \in last'.ext : x[1] = i /\ x[2] < p /\ p <= x[3]
At(d, p) == IF p <= Len(d) THEN d[p] ELSE 0
Frame == [][last'.op \in {"rel_rebuild", "bound_rebuild", "tls_rebuild", "cfg_rebuild"} =>
            /\ \A id \in 0..15 : id # last'.id => DirRvaW(img', id) = DirRvaW(img, id) /\ DirSizeW(img', id) = DirSizeW(img, id)
            /\ \A i \in 1..2 : \A p \in 1..Max2(Len(img.secs[i].d), Len(img'.secs[i].d)) : Touched(i, p) \/ At(img'.secs[i].d, p) = At(img.secs[i].d, p)
            /\ \A i \in 1..2 : SecVa(img', i) = SecVa(img, i)
            /\ ImgBase(img') = ImgBase(img) /\ img'.hdr = img.hdr]_vars
\* moving there and back changes nothing
Back == [][last'.op = "rebase" => Rebased(img', RelFlat(hist'[Len(hist')].tables), WExt(ImgBase(img), 8)) = img]_vars
Beh == (Len(hist) >= Depth + 6) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

------------------------------ MODULE MC_Stream ------------------------------
(* Reading from a caller's stream, read by read: every operation saves what *)
(* the caller set up, may fail at any of its reads (the file ends there, or *)
(* holds something else), and puts everything back.  The reads are tied to  *)
(* the conditions of the loader: an operation fails exactly if the file     *)
(* violates one of them, and with one of those it violates.                 *)
EXTENDS ImgOps, Json
CONSTANTS F, Cuts, Bads, Ops, Poses, Masks

VARIABLES n, bad, op, pos, mask, s, k, out,
          File, V     \* the file, and what is wrong with it
vars == <<n, bad, op, pos, mask, s, k, out, File, V>>
View == <<n, bad, op, pos, mask, s, k, out>>
ASeq == <<"factory", "32", "64", "type", "checksum", "entropy">>

\* a file with two DOS headers, at 0 and at 64, for the same NT headers; two sections; something behind them
Sooh == NtBase(F) - 24 + 16
Tab == 128 + 24 + Sooh
Soh == AlignUp(Tab + 80, 16)
Nt0 == LET m == NewImage(F, 16, FALSE, 3).nt
           p(b, o, w) == Patch(b, o, w)
       IN SubSeq(p(p(p(p(p(p(m, oFa, LE4(16)), oSoh, LE4(Soh)), oSoi, LE4(Soh + 48)), oNos, LE2(2)), oNrva(F), LE4(2)), oSooh, LE2(Sooh)), 1, NtBase(F) + 16)
H(va, vs, rs, ptr) == Zeros(8) \o LE4(vs) \o LE4(va) \o LE4(rs) \o LE4(ptr) \o Zeros(12) \o <<32, 0, 0, 96>>
Dos == Patch(Patch(Zeros(64), 0, <<77, 90>>), 60, LE4(128))
Whole == Strict(Resize(Dos \o Dos \o Nt0 \o H(Soh, 20, 16, Soh) \o H(Soh + 32, 16, 16, Soh + 16), Soh) \o [i \in 1..48 |-> i] \o <<99, 98, 97>>)
Len0 == Len(Whole)
BadAt == [none |-> <<0, <<77>>>>, mz |-> <<0, <<90>>>>, mz2 |-> <<64, <<0>>>>, lf |-> <<60, LE4(129)>>, far |-> <<60, LE4(Len0 + 1)>>, sig |-> <<130, <<1>>>>, magic |-> <<128 + oMagic, <<7>>>>,
          nos |-> <<128 + oNos, <<97>>>>, sa |-> <<128 + oSa, <<17>>>>, fa |-> <<128 + oFa, <<3>>>>, soi |-> <<128 + oSoi, LE4(0)>>, soh |-> <<128 + oSoh, LE4(Soh + 16)>>,
          data |-> <<Tab + 20, LE4(Len0)>>, vs |-> <<Tab + 48, <<64>>>>]
TheFile == LET w == Patch(Whole, BadAt[bad][1], BadAt[bad][2]) IN Strict(SubSeq(w, 1, IF n < 0 THEN Len0 ELSE n))

\* --- the reads of an operation: <<from, bytes>> ------------------------------------------
Want == CASE op = "32" -> 32 [] op = "64" -> 64 [] OTHER -> 0
Lf == IF pos + 64 <= Len(File) THEN U32(File, pos + 60) ELSE 0
Dirs0 == Lf + NtBase(IF Want # 0 THEN Want ELSE IF Lf + 120 > Len(File) THEN F ELSE Fmt(File, Lf))
Reads == CASE op = "entropy" -> <<<<pos, 0>>, <<pos, Max2(Len(File) - pos, 0)>>>>
           [] op = "checksum" -> <<<<pos, 64>>, <<0, Len(File)>>>>
           [] op = "type" -> <<<<pos, 64>>, <<Lf, 120>>>>
           [] OTHER -> <<<<pos, 64>>, <<Lf, 120>>, <<Lf, Dirs0 - Lf>>, <<Dirs0, 16>>, <<Tab, 40>>, <<Soh, 16>>, <<Tab + 40, 40>>, <<Soh + 16, 16>>, <<0, Soh>>>>
\* what is wrong with what a read delivers (as far as this read can tell)
Wrong == CASE op = "entropy" -> {}
       [] op = "checksum" -> IF pos + 64 > Len(File) THEN {"bad_dos_header"} ELSE IF U16(File, pos) # 23117 THEN {"bad_dos_header"} ELSE {}
       [] op = "type" -> DosPart(File, pos, -1)
       [] OTHER -> Violations(File, pos, FALSE, Want)
HeadBad == pos + 64 <= Len(File) /\ U16(File, pos) # 23117
Content == CASE k = 1 -> op # "entropy" /\ (U16(File, pos) # 23117 \/ (op # "checksum" /\ U8(File, pos + 60) % 4 # 0))
             [] k = 2 -> op \notin {"entropy", "checksum"} /\ (Raw(File, Lf, 4) # <<80, 69, 0, 0>> \/ (Want = 0 /\ U16(File, Lf + oMagic) \notin {267, 523})
                                                            \/ (Want # 0 /\ U16(File, Lf + oMagic) # (IF Want = 32 THEN 267 ELSE 523)))
             \* the rest of the headers is judged as it is read
             [] k >= 3 -> V # {} /\ (bad \in {"nos", "sa", "fa", "soi", "soh", "data", "vs"} \/ k = Len(Reads))
             [] OTHER -> FALSE

Init == /\ op \in Ops /\ bad \in Bads /\ n \in Cuts /\ pos \in Poses /\ mask \in Masks
        /\ pos <= (IF n < 0 THEN Len0 ELSE n)
        /\ s = [pos |-> pos, mask |-> mask, bits |-> {}] /\ k = 0 /\ out = "run" /\ File = TheFile /\ V = {}
Same == UNCHANGED <<n, bad, op, pos, mask, File>>
\* no exceptions of the stream's own while the library reads
Begin == k = 0 /\ V' = Wrong /\ s' = [s EXCEPT !.mask = 0] /\ k' = 1 /\ Same /\ UNCHANGED out
Read == /\ k > 0 /\ k <= Len(Reads) /\ out = "run" /\ Same /\ UNCHANGED V
        /\ LET r == Reads[k] IN
           IF r[1] + r[2] > Len(File) THEN /\ s' = [s EXCEPT !.pos = Len(File), !.bits = {"eof", "fail"}]
                                           /\ out' = "fail" /\ UNCHANGED k
           ELSE IF Content THEN s' = [s EXCEPT !.pos = r[1] + r[2]] /\ out' = "fail" /\ UNCHANGED k
           ELSE s' = [s EXCEPT !.pos = r[1] + r[2]] /\ k' = k + 1 /\ UNCHANGED out
Over == /\ (out = "fail" \/ (out = "run" /\ k > Len(Reads))) /\ Same /\ UNCHANGED V /\ UNCHANGED k
        /\ s' = [pos |-> pos, mask |-> mask, bits |-> {}] /\ out' = IF out = "fail" THEN "threw" ELSE "done"
Next == Begin \/ Read \/ Over
Spec == Init /\ [][Next]_vars
Ended == out \in {"threw", "done"}

Restored == (k = 0 \/ Ended) => s = [pos |-> pos, mask |-> mask, bits |-> {}]
\* the operation fails exactly if the file violates a condition
Truthful == Ended => ((out = "threw") = (V # {}))
\* while the library reads, the stream never throws by itself
Quiet == (k > 0 /\ ~Ended) => s.mask = 0
Total == Len(Reads) >= 2
Beh == Ended => PrintT(<<"BEH", ToJson([n |-> n, bad |-> BadAt[bad], op |-> op, pos |-> pos, mask |-> mask, threw |-> out = "threw", file |-> IF n < 0 /\ bad = "none" /\ pos = 0 /\ mask = 0 THEN Whole ELSE <<>>])>>)
\* every length, and the lengths at which something ends
All == {-1} \cup 0..Len0
Edges == {-1} \cup {x \in UNION {{y - 1, y, y + 1} : y \in {64, 128, 248, 128 + NtBase(F), 144 + NtBase(F), Tab + 40, Tab + 80, Soh, Soh + 16, Soh + 32, Soh + 48}} : x >= 0}
Few == {-1, 100, 128, 300, Tab + 40, Soh + 31}
BadNames == DOMAIN BadAt
NoBad == {"none"}
OpsAll == Range(ASeq)
Pos1 == {0, 64}
Pos2 == {0, 1, 64, 127, 128, Len0 - 3, Len0}
=============================================================================

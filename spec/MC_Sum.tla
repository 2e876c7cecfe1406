------------------------------- MODULE MC_Sum -------------------------------
(* The checksum of a file: files of every length around the interesting     *)
(* ones, edited byte by byte, against what the sum is meant to be.          *)
EXTENDS ImgOps, Json
CONSTANTS Lens, Lfs, At, Vals, Depth, Fills

VARIABLES f, hist, k, how
vars == <<f, hist, k, how>>
View == <<f, k, how>>
Ask == [op |-> "checksum", file |-> 0]
Lf == U32(f, 60)
Field == Lf + 88                    \* of the stored checksum
HasField == Field + 4 <= Len(f)
C == CheckSum(f, 0)

Base(n, lf, v) == <<77, 90>> \o [i \in 1..58 |-> v] \o LE4(lf) \o [i \in 1..(n - 64) |-> v]
Init == /\ \E n \in Lens, lf \in Lfs, v \in Fills : f = Base(n, lf, v) \o <<>>
        /\ hist = <<[op |-> "file_set", b |-> f], Ask>> /\ k = 0 /\ how = "base"
Step(g, c, w) == f' = g /\ hist' = hist \o <<c, Ask>> /\ k' = k + 1 /\ how' = w
Edit(o, b, w) == Step(Patch(f, o, b), [op |-> "file_patch", off |-> o, b |-> b], w)
\* positions are offsets, or 1000 + the distance from the end of the file
Places == {p \in ({x \in At : x < 1000} \cup {Len(f) - x + 1000 : x \in {y \in At : y > 1000}}) : p >= 2 /\ p < Len(f) /\ ~(p \in 60..63)}
SetByte == \E p \in Places, v \in Vals : f[p + 1] # v /\ Edit(p, <<v>>, IF p \in Field..(Field + 3) THEN "stored" ELSE "byte")
Store == HasField /\ Edit(Field, LE4(C), "stored")
Garble == HasField /\ Edit(Field, <<255, 255, 255, 255>>, "stored")
\* two whole words change places
Free(i) == 2 * i >= 2 /\ 2 * i + 1 < Len(f) /\ ~(2 * i \in 60..63) /\ ~(2 * i \in Field..(Field + 3))
Swap == \E p \in Places, q \in Places : LET i == p \div 2  j == q \div 2 IN
        /\ i < j /\ Free(i) /\ Free(j)
        /\ f' = Patch(Patch(f, 2 * i, Raw(f, 2 * j, 2)), 2 * j, Raw(f, 2 * i, 2)) /\ k' = k + 1 /\ how' = "swap"
        /\ hist' = hist \o <<[op |-> "file_patch", off |-> 2 * i, b |-> Raw(f, 2 * j, 2)], [op |-> "file_patch", off |-> 2 * j, b |-> Raw(f, 2 * i, 2)], Ask>>
Append0 == Step(f \o <<0>>, [op |-> "file_app", b |-> <<0>>], "zero")
AppendV == \E v \in Vals : v # 0 /\ Step(f \o <<v>>, [op |-> "file_app", b |-> <<v>>], "grown")
Go == k < Depth
Next == Go /\ (SetByte \/ Store \/ Garble \/ Swap \/ Append0 \/ AppendV)
Spec == Init /\ [][Next]_vars

\* an end-around-carry sum is the sum modulo 65535, and zero only for all zeros
Byte(o) == IF o \in Field..(Field + 3) THEN 0 ELSE f[o + 1]
Plain == FoldLeft(LAMBDA a, o : (a + Byte(o - 1) * (IF o % 2 = 1 THEN 1 ELSE 256)) % 65535, 0, [i \in 1..Len(f) |-> i])
Meaning == LET s == C - Len(f) IN
           /\ s \in 0..65535 /\ s % 65535 = Plain
           /\ (s = 0) = (\A o \in 1..Len(f) : Byte(o - 1) = 0)
\* neither the stored value nor the order of the words matters; a zero byte at the end counts for the length alone
\* (unless it is behind an end where the checksum field begins to be)
Same == [][how' \in {"stored", "swap"} => CheckSum(f', 0) = CheckSum(f, 0)]_vars
Longer == [][(how' = "zero" /\ ~(Len(f) \in Field..(Field + 3))) => CheckSum(f', 0) = CheckSum(f, 0) + 1]_vars
\* one byte moves the sum by its difference
Byte1 == [][how' = "byte" => CheckSum(f', 0) # CheckSum(f, 0)]_vars
Beh == ~Go => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

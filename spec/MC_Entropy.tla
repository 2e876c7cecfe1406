----------------------------- MODULE MC_Entropy -----------------------------
(* Entropy of sequences and of images of several sections, against what     *)
(* entropy is.                                                              *)
EXTENDS ImgOps, Json
CONSTANTS F, Alpha, Words, NSec, MaxLen, Depth

VARIABLES img, seq, hist, k
vars == <<img, seq, hist, k>>
View == <<img, seq, k>>
Rep(x, n) == [i \in 1..n |-> x] \o <<>>
WordsA == {<<>>, <<0>>, <<7, 7>>, <<0, 255>>, <<1, 2, 3, 4>>, Rep(9, 8)}
WordsB == {<<>>, <<0>>, <<0, 255>>, [i \in 1..256 |-> i - 1] \o <<>>}
Log == [i \in 1..512 |-> Log2(i)] \o <<>>

Img0 == NewImage(F, 4096, FALSE, 2)

Init == /\ img = Img0 /\ seq = <<>> /\ k = 0
        /\ hist = <<[op |-> "new", fmt |-> F, sa |-> 4096], [op |-> "entropy", k |-> "img"]>>
\* everything there is to ask about an image with n sections and a sequence
Asks(n, s) == <<[op |-> "entropy", k |-> "img"]>> \o [i \in 1..n |-> [op |-> "entropy", k |-> "sec", sec |-> i - 1]]
              \o (IF s = <<>> THEN <<>> ELSE <<[op |-> "entropy", k |-> "str", data |-> s], [op |-> "entropy", k |-> "stream", data |-> s], [op |-> "entropy", k |-> "stream", data |-> <<5, 5>> \o s, pos |-> 2]>>)
AddW == /\ Len(img.secs) < NSec
        /\ \E w \in Words : LET c == [op |-> "addsec", raw |-> w, vs |-> 4096]  x == MkSec(c) IN
           /\ img' = UnLay(img, Add(Lay(img), Sec(x), TRUE).L, x)
           /\ hist' = hist \o <<c>> \o Asks(Len(img'.secs), <<>>) /\ UNCHANGED seq
\* the sequence goes on
Longer == \E w \in {<<a>> : a \in Alpha} \cup {seq} : /\ w # <<>> /\ Len(seq) + Len(w) <= MaxLen /\ seq' = seq \o w /\ UNCHANGED img
          /\ hist' = hist \o Asks(0, seq \o w)
Relabel == \E s \in [Alpha -> Alpha] : /\ seq # <<>> /\ seq' = [i \in 1..Len(seq) |-> s[seq[i]]] \o <<>> /\ UNCHANGED img
           /\ hist' = hist \o Asks(0, seq')
Go == k < Depth
Next == Go /\ k' = k + 1 /\ (AddW \/ Longer \/ Relabel)
Spec == Init /\ [][Next]_vars

E(s) == EntropyOf(s)
Distinct(s) == {s[i] : i \in 1..Len(s)}
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Near(a, b) == (IF a > b THEN a - b ELSE b - a) <= 800       \* the arithmetic is good to about 2^-7
Law(s) == s = <<>> \/
    /\ (E(s) = 0) = (Cardinality(Distinct(s)) = 1)
    /\ E(s) <= 16 * Log[Cardinality(Distinct(s))] + 800
    \* uniform over 2^n values
    /\ \A n \in 0..8 : (LET D == Distinct(s) IN Cardinality(D) = 2 ^ n /\ \A x \in D : CountOf(s, x) * (2 ^ n) = Len(s)) => E(s) = n * EntropyUnits
    \* the histogram decides: backwards, sorted, rotated, relabelled and twice is the same
    /\ E(Reverse(s)) = E(s) /\ E(Tail(s) \o <<Head(s)>>) = E(s)
    /\ E(SortSeq(s, <)) = E(s)
    /\ E([i \in 1..Len(s) |-> 255 - s[i]] \o <<>>) = E(s)
    /\ Near(E(s \o s), E(s))
    \* the chain rule: one value against the others, and then those
    /\ \A x \in {Head(s), s[Len(s)]} : LET r == SelectSeq(s, LAMBDA y : y # x)  c == CountOf(s, x)  n == Len(s) IN
          r # <<>> => Near(E(s), E(Rep(1, c) \o Rep(2, n - c)) + ((n - c) * E(r)) \div n)
Laws == Law(seq) /\ Law(AllData(img))
\* the order of the sections does not matter
Orders == AllData(img) = <<>> \/ E(AllData(img)) = E(AllData([img EXCEPT !.secs = Reverse(@)]))
Merge == [][Cardinality(Distinct(seq')) < Cardinality(Distinct(seq)) => (Len(seq') # Len(seq) \/ E(seq') <= E(seq))]_vars
Beh == ~Go => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

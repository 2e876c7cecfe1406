------------------------------- MODULE Bytes -------------------------------
(* Byte-level vocabulary shared by all modules.                             *)
(* A byte sequence is a TLA+ sequence of 0..255.  Offsets are 0-based.      *)
(* TLC integers have 32 bits, so a 32-bit field is read in one of two ways: *)
(*   U32(b,o)   a natural number that saturates at BIG = 2^29; used for     *)
(*              sizes and addresses that are compared with small bounds     *)
(*   Raw(b,o,n) the bytes themselves; used whenever the exact value matters *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* optional record field, map update
Has(e, k) == k \in DOMAIN e
Opt(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
EmptyMap == [x \in {} |-> 0]

BIG == 536870912

U8(b, o) == b[o + 1]
U16(b, o) == b[o + 1] + 256 * b[o + 2]
U32(b, o) == IF b[o + 4] >= 32 THEN BIG
             ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
Raw(b, o, n) == SubSeq(b, o + 1, o + n)
InB(b, o, n) == o >= 0 /\ o + n <= Len(b)
\* 64-bit field, saturating
U64(b, o) == IF b[o + 5] + b[o + 6] + b[o + 7] + b[o + 8] > 0 THEN BIG ELSE U32(b, o)

\* value of a little-endian byte sequence, saturating at BIG
RECURSIVE ValSat(_)
ValSat(w) == IF w = <<>> THEN 0
             ELSE LET t == ValSat(Tail(w)) IN IF t >= 2097152 THEN BIG ELSE w[1] + 256 * t

LE2(x) == <<x % 256, (x \div 256) % 256>>
LE4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256>>
LE8(x) == LE4(x) \o <<0, 0, 0, 0>>
LEn(x, n) == IF n = 1 THEN <<x % 256>> ELSE IF n = 2 THEN LE2(x) ELSE IF n = 4 THEN LE4(x) ELSE LE8(x)

Zeros(n) == [i \in 1..n |-> 0] \o <<>>
Pad(b, n) == IF Len(b) >= n THEN b ELSE b \o Zeros(n - Len(b))
Take(b, n) == IF Len(b) <= n THEN b ELSE SubSeq(b, 1, n)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
Resize(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))
\* (TLC evaluates function expressions lazily, element by element and again each time; concatenation makes a tuple)
Strict(q) == q \o <<>>
Patch(b, o, w) == IF o >= Len(b) THEN b ELSE SubSeq(b, 1, o) \o SubSeq(w, 1, IF Len(w) <= Len(b) - o THEN Len(w) ELSE Len(b) - o) \o SubSeq(b, o + Len(w) + 1, Len(b))
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x

AlignUp(x, a) == IF a = 0 THEN 0 ELSE ((x + (a - 1)) \div a) * a
AlignDown(x, a) == IF a = 0 THEN 0 ELSE (x \div a) * a
Aligned(x, a) == a > 0 /\ x % a = 0

\* length of b without trailing zero bytes
TrimLen(b) == FoldLeft(LAMBDA acc, x : IF x # 0 THEN <<acc[1] + 1, acc[1] + 1>> ELSE <<acc[1] + 1, acc[2]>>, <<0, 0>>, b)[2]
Trim(b) == SubSeq(b, 1, TrimLen(b))
SameModTrailingZeros(a, b) == Trim(a) = Trim(b)
AllZero(b, from, to) == \A i \in (from + 1)..to : b[i] = 0   \* bytes from <= o < to

----------------------------------------------------------------------------
(* Fixed-width machine words as little-endian byte sequences.               *)
\* carry (0/1) into position k of the addition a + b
RECURSIVE CarryIn(_, _, _)
CarryIn(a, b, k) == IF k = 1 THEN 0 ELSE (a[k - 1] + b[k - 1] + CarryIn(a, b, k - 1)) \div 256
WAdd(a, b) == [k \in 1..Len(a) |-> (a[k] + b[k] + CarryIn(a, b, k)) % 256] \o <<>>
WCarry(a, b) == CarryIn(a \o <<0>>, b \o <<0>>, Len(a) + 1) = 1
WNot(a) == [k \in 1..Len(a) |-> 255 - a[k]] \o <<>>
WOne(n) == [k \in 1..n |-> IF k = 1 THEN 1 ELSE 0]
WZero(n) == Zeros(n)
WSub(a, b) == WAdd(WAdd(a, WNot(b)), WOne(Len(a)))     \* modulo 2^(8n)
\* unsigned comparison
RECURSIVE WLtAt(_, _, _)
WLtAt(a, b, k) == IF k = 0 THEN FALSE
                  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE WLtAt(a, b, k - 1)
WLt(a, b) == WLtAt(a, b, Len(a))
WLe(a, b) == a = b \/ WLt(a, b)
WIsZero(a) == \A k \in 1..Len(a) : a[k] = 0
WExt(a, n) == IF Len(a) >= n THEN SubSeq(a, 1, n) ELSE a \o Zeros(n - Len(a))

\* bitwise operators on 16-bit numbers
Bit(x, k) == (x \div (2 ^ k)) % 2
BitSum(P(_)) == FoldLeft(LAMBDA acc, k : acc + (IF P(k - 1) THEN 2 ^ (k - 1) ELSE 0), 0, [k \in 1..16 |-> k])
And16(a, b) == BitSum(LAMBDA k : Bit(a, k) = 1 /\ Bit(b, k) = 1)
Or16(a, b) == BitSum(LAMBDA k : Bit(a, k) = 1 \/ Bit(b, k) = 1)
Clr16(a, b) == BitSum(LAMBDA k : Bit(a, k) = 1 /\ Bit(b, k) = 0)
Xor8(a, b) == FoldLeft(LAMBDA acc, k : acc + (IF Bit(a, k - 1) # Bit(b, k - 1) THEN 2 ^ (k - 1) ELSE 0), 0, [k \in 1..8 |-> k])
WXor(a, b) == [k \in 1..Len(a) |-> Xor8(a[k], b[k])] \o <<>>
\* a word with exactly one bit set
IsPow2W(w) == \E k \in 1..Len(w) : w[k] \in {1, 2, 4, 8, 16, 32, 64, 128} /\ \A j \in 1..Len(w) : j # k => w[j] = 0
\* alignment of words to a word with one bit set (sums must not carry out of the word)
WMaskDown(w, a) == LET j == SetMin({k \in 1..Len(a) : a[k] # 0})
                   IN [k \in 1..Len(w) |-> IF k < j THEN 0 ELSE IF k = j THEN w[k] - (w[k] % a[k]) ELSE w[k]] \o <<>>
WAlignUp(w, a) == WMaskDown(WAdd(w, WSub(a, WOne(Len(a)))), a)
=============================================================================

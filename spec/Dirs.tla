-------------------------------- MODULE Dirs --------------------------------
(* What the directory readers and rebuilders have in common.                *)
(* A reader sees the image through the virtual view, header area included.  *)
(* It must return what the format defines, or - when the structure does not *)
(* lie inside the image - throw some library exception.                     *)
EXTENDS ImgOps

\* any exception of the library, as opposed to a foreign exception type
IsStd(x) == Len(x) >= 4 /\ SubSeq(x, 1, 4) = "std:"
LibExc(x) == x # "none" /\ x # "invalid_exception_id" /\ x \notin {"std:logic_error", "std:bad_alloc", "std:ios_failure", "std:exception", "std:unknown"}

\* reads: result [ok, b]
RdV(img, rva, n) == LET r == Rd(img, rva, n, "virt", TRUE) IN [ok |-> r.exc = "none", b |-> r.b]
RdR(img, rva, n) == LET r == Rd(img, rva, n, "raw", TRUE) IN [ok |-> r.exc = "none", b |-> r.b]
\* bytes that remain from rva to the end of its section's virtual data; -1: nowhere
RemV(img, rva) == LET r == LenAt2(img, rva, rva, "virt", TRUE) IN IF r.exc = "none" THEN r.n ELSE -1
RemR(img, rva) == LET r == LenAt2(img, rva, rva, "raw", TRUE) IN IF r.exc = "none" THEN r.n ELSE -1
\* the bytes d from offset o on, as far as n, up to (not including) the first NUL; result [ok, s]; past the end of d there are zeros
CStrIn(d, o, n) ==
    LET hi == Min2(Len(d), o + n)
        Z == {k \in (o + 1)..hi : d[k] = 0}
    IN IF Z # {} THEN [ok |-> TRUE, s |-> SubSeq(d, o + 1, SetMin(Z) - 1)]
       ELSE IF o + n > Len(d) THEN [ok |-> TRUE, s |-> SubSeq(d, o + 1, Len(d))]
       ELSE [ok |-> FALSE, s |-> <<>>]
\* NUL-terminated string at an RVA (at least two bytes must be there)
StrAt(img, rva) ==
    LET n == RemV(img, rva) IN
    IF n < 2 THEN [ok |-> FALSE, s |-> <<>>]
    ELSE IF rva < Len(img.hdr) THEN CStrIn(img.hdr, rva, n)
    ELSE LET L == Lay(img)  s == L.secs[SecIdx(L, rva)] IN CStrIn(s.d, rva - s.va, n)

\* memory m == [b, n]: the bytes b, followed by zeros up to the length n
MWord(m, o, k) == [i \in 1..k |-> IF o + i <= Len(m.b) THEN m.b[o + i] ELSE 0] \o <<>>
\* the words of n bytes from p on, up to the first null one (where one section ends, the next one may go on)
RECURSIVE WordsAt(_, _, _, _, _)
WordsAt(img, p, n, hdrs, acc) ==
    LET inH == hdrs /\ p + n <= Len(img.hdr)
        L == Lay(img)
        i == SecIdx(L, p)
        m == [b |-> IF inH THEN Drop(img.hdr, p) ELSE Drop(L.secs[i].d, Min2(Len(L.secs[i].d), p - L.secs[i].va))]
        cnt == (IF inH THEN Len(img.hdr) - p ELSE ViewLen(L, L.secs[i], "virt") - (p - L.secs[i].va)) \div n
        K == {k \in 0..Min2(cnt - 1, (Len(m.b) + n - 1) \div n) : \A j \in 1..n : n * k + j > Len(m.b) \/ m.b[n * k + j] = 0}
        got(c) == acc \o [k \in 1..c |-> MWord(m, n * (k - 1), n)]
    IN IF ~inH /\ i = 0 THEN [ok |-> FALSE, v |-> <<>>]
       ELSE IF cnt <= 0 THEN [ok |-> FALSE, v |-> <<>>]
       ELSE IF K # {} THEN [ok |-> TRUE, v |-> got(SetMin(K))]
       ELSE WordsAt(img, p + n * cnt, n, hdrs, got(cnt))

\* outcome of a reader: ok: what the format defines; res: disagreements with it
ReadBad(e, ok, res) == IF ok THEN (IF e.exc # "none" THEN {"reading a well-formed directory: outcome " \o e.exc} ELSE res)
                       ELSE IF LibExc(e.exc) THEN {} ELSE {"reading a malformed directory: outcome " \o e.exc}

\* --- rebuilding -------------------------------------------------------------
SecVa(img, i) == U32(img.secs[i].h, 12)
SecRs(img, i) == U32(img.secs[i].h, 16)
SetDir(img, id, rva, size) == [img EXCEPT !.nt = Patch(Patch(img.nt, oDir(img.fmt, id), LE4(rva)), oDir(img.fmt, id) + 4, LE4(size))]
\* a section other than the last one must already have room for `end` bytes
NoRoom(img, i, end) == i # Len(img.secs) /\ (img.secs[i].d = <<>> \/ AlignUp(SecRs(img, i), U32(img.nt, oFa)) < end)
\* the image after writing [pos, pos + n) of section i with whatever the section holds there afterwards
WrittenAs(img, i, pos, n, st) ==
    LET d == img.secs[i].d
        d1 == IF Len(d) < pos + n THEN Resize(d, pos + n) ELSE d
        nd == IF i <= Len(st.secs) THEN st.secs[i].d ELSE <<>>
        nb == IF Len(nd) > pos THEN Resize(SubSeq(nd, pos + 1, Min2(Len(nd), pos + n)), n) ELSE Zeros(n)
    IN [img EXCEPT !.secs[i].d = Patch(d1, pos, nb)]
Recalculated(img, i, strip) == LET r == Recalc(Lay(img), i, Sec(img.secs[i]), strip) IN UnLay(img, r.L, [h |-> BlankHdr, d |-> <<>>])
Inside(d, rva, n) == rva >= d.rva /\ rva + n <= d.rva + d.size

\* Outcome of a rebuild.  X: violated conditions (exception ids); E: expected image; content: disagreements in the written structures
RebuildOutcome(env, e, X, rva, size, E, content) ==
    IF X # {} THEN Res(SetIm(env, e, e.st), (IF e.exc \in X THEN {} ELSE {"outcome " \o e.exc \o ", violated conditions " \o ToString(X)})
                                            \cup {"refused rebuild changed " \o x : x \in DiffAll(Im(env, e), e.st)})
    ELSE IF e.exc # "none" THEN Res(SetIm(env, e, e.st), XBad(e, "none"))
    ELSE Res(SetIm(env, e, e.st), EqBad("returned directory", <<e.drva, e.dsize>>, <<rva, size>>)
                                  \cup {"rebuild: unexpected " \o x : x \in DiffAll(E, e.st)} \cup content)

\* lexicographic order of byte strings (or of any sequences of numbers)
RECURSIVE SeqLt(_, _)
SeqLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLt(Tail(a), Tail(b))
SumLen(q, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, q)
HasDup(q) == \E i \in 1..Len(q), j \in 1..Len(q) : i < j /\ q[i] = q[j]
FirstDiff(a, b) == IF Len(a) # Len(b) THEN "length " \o ToString(Len(a)) \o "/" \o ToString(Len(b))
                   ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]} IN IF D = {} THEN "none" ELSE LET i == SetMin(D) IN ToString(i) \o ": " \o ToString(a[i]) \o " / " \o ToString(b[i])
ListBad(what, got, exp) == IF got = exp THEN {} ELSE {what \o " differ at " \o FirstDiff(got, exp)}
=============================================================================

-------------------------------- MODULE Write -------------------------------
(* A canonical writer: one file (and image afterwards) that satisfies the   *)
(* requirements of RebuildDiff.  Used by the models, where it shows that    *)
(* the requirements can be met and what follows from them.                  *)
EXTENDS ImgOps

\* file pointers of the sections, in order, from the data start on
Pointers(img, o) ==
    LET L == Lay(img)
        f(acc, s) == IF s.rs = 0 THEN [p |-> acc.p, q |-> Append(acc.q, s.ptr)] ELSE [p |-> acc.p + ARS(L, s), q |-> Append(acc.q, acc.p)]
    IN FoldLeft(f, [p |-> DataStart(img, o), q |-> <<>>], L.secs).q
WriteExc(img, o) == IF BoundRefusal(img, o) # "none" THEN BoundRefusal(img, o) ELSE IF RebuildRefused(img, o) THEN "cannot_rebuild_image" ELSE "none"
WriteFile(img, o) ==
    LET ptrs == Pointers(img, o)
        nt == ExpectedNt(img, o)
        stub == StubOut(img, o)
        secs == [i \in 1..Len(img.secs) |-> [img.secs[i] EXCEPT !.h = Patch(@, 20, LE4(ptrs[i]))]]
        after == [img EXCEPT !.nt = nt, !.stub = stub, !.secs = secs]
        dos == IF o.strip THEN SubSeq(img.dos, 1, 16) ELSE SubSeq(img.dos, 1, 60) \o LE4(64 + AlignUp(Len(stub), 4))
        heads == dos \o Pad(stub, AlignUp(Len(stub), 4)) \o SubSeq(nt, 1, NtWritten(img)) \o FoldLeft(LAMBDA acc, s : acc \o s.h, <<>>, secs)
                 \o (IF BoundInHeaders(img, o) THEN BoundSrc(img) ELSE <<>>)
        put(acc, s) == LET x == Sec(s) IN IF x.rs = 0 THEN acc ELSE Pad(acc, x.ptr) \o Resize(x.d, x.rs)
    IN [after |-> after, out |-> FoldLeft(put, heads, secs)]
=============================================================================

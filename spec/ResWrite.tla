------------------------------ MODULE ResWrite ------------------------------
(* One way of laying out a resource directory that meets the requirements   *)
(* of ResRebuild: directories in preorder, then names, then data.           *)
EXTENDS Resources, DirWrite

\* chunks <<position, bytes>>; base: position of the root; va: address of the section
RECURSIVE ResEmit(_, _, _, _)
ResEmit(d, base, va, st) ==
    LET nn == Len(SelectSeq(d.ents, LAMBDA x : x.named))
        n == Len(d.ents)
        head == <<st.s, d.ch \o d.ts \o d.maj \o d.min \o LE2(nn) \o LE2(n - nn)>>
        Hi(w) == [w EXCEPT ![4] = @ + 128]
        Step(a, i) == LET x == d.ents[i]
                          slot == st.s + 16 + 8 * (i - 1)
                          w1 == IF x.named THEN Hi(LE4(a.n - base)) ELSE x.id
                          name == IF x.named THEN LE2(Len(x.name)) \o FlattenSeq([k \in 1..Len(x.name) |-> LE2(x.name[k])]) \o <<0, 0>> ELSE <<>>
                          p == AlignUp(a.p, 4)
                          b == [a EXCEPT !.n = @ + Len(name), !.out = IF x.named THEN Append(@, <<a.n, name>>) ELSE @]
                      IN IF x.k = "dir" THEN ResEmit(x.sub[1], base, va, [b EXCEPT !.out = Append(@, <<slot, w1 \o Hi(LE4(a.s - base))>>)])
                         ELSE [b EXCEPT !.p = p + 16 + Len(x.data),
                                        !.out = @ \o <<<<slot, w1 \o LE4(p - base)>>, <<p, LE4(va + p + 16) \o LE4(Len(x.data)) \o x.cp \o Zeros(4) \o x.data>>>>]
    IN FoldLeft(Step, [st EXCEPT !.s = @ + 16 + 8 * n, !.out = Append(@, head)], [i \in 1..n |-> i])
\* place and size
ResPlan(img, e, T) ==
    LET pos == AlignUp(Opt(e, "off", 0), 4)
        sz == TreeSizes(T)
        d1 == pos + (pos - Opt(e, "off", 0)) + sz[1] + sz[2]
        i == Tgt(e)
    IN [i |-> i, pos |-> pos, rva |-> SecVa(img, i) + pos, size |-> DataEnd(SortTree(T), d1) - pos,
        names |-> pos + (pos - Opt(e, "off", 0)) + sz[1], d1 |-> d1]
ResChunks(img, e, T) == LET P == ResPlan(img, e, T) IN ResEmit(SortTree(T), P.pos, SecVa(img, P.i), [s |-> P.pos, n |-> P.names, p |-> P.d1, out |-> <<>>]).out
ResWritten(img, e, T) ==
    LET P == ResPlan(img, e, T)
        d == img.secs[P.i].d
        big == [img EXCEPT !.secs[P.i].d = IF Len(d) < P.pos + P.size THEN Resize(d, P.pos + P.size) ELSE d]
        w == FoldLeft(LAMBDA im, c : PutRaw(im, P.i, c[1], c[2]), big, ResChunks(img, e, T))
        E == Recalculated(w, P.i, Opt(e, "strip", TRUE))
    IN IF Opt(e, "save", TRUE) THEN SetDir(E, 2, P.rva, P.size) ELSE E
=============================================================================

------------------------------ MODULE MC_Views ------------------------------
(* The two views of a section.  The library keeps one buffer for both: the  *)
(* virtual view is the buffer grown to the virtual size, and `old` the raw  *)
(* length to go back to.  Whatever the order of reads through either view,  *)
(* copies and edits, the buffer always stands for the same contents.        *)
EXTENDS ImgOps, Json
CONSTANTS Depth, Calls, Raw0, Vs0

VARIABLES d, vs, rs,       \* the contents and what the header says
          buf, old,        \* the buffer, and the raw length while it is the virtual view (-1: it is not)
          cbuf, cold, cd,  \* of a copy of the section
          k, hist, last
vars == <<d, vs, rs, buf, old, cbuf, cold, cd, k, hist, last>>
View == <<d, vs, rs, buf, old, cbuf, cold, cd, k, last>>
SA == 16
Grow(b, n) == IF n <= Len(b) THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))
AVSize == IF rs # 0 /\ vs = 0 THEN AlignUp(rs, SA) ELSE AlignUp(vs, SA)
Mapped(b, o) == LET raw == IF o = -1 THEN Len(b) ELSE o
                    m == Max2(raw, AVSize)
                IN IF m = Len(b) THEN [b |-> b, o |-> o] ELSE [b |-> Grow(b, m), o |-> raw]
Unmapped(b, o) == IF o = -1 THEN b ELSE Grow(b, o)

Va == 4096
Init == /\ d = Raw0 /\ vs = Vs0 /\ rs = Len(Raw0) /\ buf = Raw0 /\ old = -1 /\ cbuf = <<>> /\ cold = -1 /\ cd = <<>>
        /\ k = 0 /\ hist = <<>> /\ last = "init"
C(c) == hist' = Append(hist, c) /\ k' = k + 1 /\ last' = c.op
S == UNCHANGED <<d, vs, rs>>
CS == UNCHANGED <<cbuf, cold, cd>>
B == UNCHANGED <<buf, old>>
ReadVirt(const) == /\ LET m == Mapped(buf, old) IN buf' = m.b /\ old' = m.o
                   /\ C([op |-> "sec_virt", sec |-> 0, const |-> const]) /\ S /\ CS
ReadRaw(const) == buf' = Unmapped(buf, old) /\ old' = -1 /\ C([op |-> "sec_rawget", sec |-> 0, const |-> const]) /\ S /\ CS
\* asking for an address maps (or unmaps) as well
ReadAt(view, at) == /\ (IF view = "virt" THEN LET m == Mapped(buf, old) IN buf' = m.b /\ old' = m.o
                        ELSE buf' = Unmapped(buf, old) /\ old' = -1)
                    /\ C([op |-> "rd", n |-> 1, via |-> "rva", v |-> LE4(Va + at) \o Zeros(4), view |-> view]) /\ S /\ CS
Empty0 == B /\ C([op |-> "sec_empty", sec |-> 0]) /\ S /\ CS
SetRaw(b) == buf' = b /\ old' = -1 /\ d' = b /\ UNCHANGED <<vs, rs>> /\ CS /\ C([op |-> "sec_setraw", sec |-> 0, raw |-> b])
ResizeTo(n) == LET b == Grow(Unmapped(buf, old), n) IN buf' = b /\ old' = -1 /\ d' = Grow(d, n) /\ UNCHANGED <<vs, rs>> /\ CS /\ C([op |-> "sec_resize", sec |-> 0, n |-> n])
SetVs(n) == vs' = n /\ vs # n /\ UNCHANGED <<d, rs>> /\ B /\ CS /\ C([op |-> "sec_setters", sec |-> 0, vs |-> n])
SetRs(n) == rs' = n /\ rs # n /\ UNCHANGED <<d, vs>> /\ B /\ CS /\ C([op |-> "sec_setters", sec |-> 0, rs |-> n])
\* writing into contents through either view
WriteRaw(at, x) == /\ at < Len(d) /\ d' = Patch(d, at, <<x>>) /\ buf' = Patch(Unmapped(buf, old), at, <<x>>) /\ old' = -1
                   /\ UNCHANGED <<vs, rs>> /\ CS /\ C([op |-> "sec_edit", sec |-> 0, off |-> at, b |-> <<x>>])
WriteVirt(at, x) == /\ at < Len(d) /\ d' = Patch(d, at, <<x>>)
                    /\ LET m == Mapped(buf, old) IN buf' = Patch(m.b, at, <<x>>) /\ old' = m.o
                    /\ UNCHANGED <<vs, rs>> /\ CS /\ C([op |-> "sec_vwrite", sec |-> 0, off |-> at, b |-> <<x>>])
\* a copy shares nothing with what it is a copy of
Copy == cbuf' = buf /\ cold' = old /\ cd' = d /\ S /\ B /\ C([op |-> "sec_copy", sec |-> 0, to |-> 3])
CopyRead == cbuf' = Unmapped(cbuf, cold) /\ cold' = -1 /\ cd # <<>> /\ UNCHANGED cd /\ S /\ B /\ C([op |-> "sec_rawget", det |-> 3])
CopyWrite(x) == /\ cd # <<>> /\ cd' = Patch(cd, 0, <<x>>) /\ cbuf' = Patch(Unmapped(cbuf, cold), 0, <<x>>) /\ cold' = -1 /\ S /\ B
                /\ C([op |-> "sec_edit", det |-> 3, off |-> 0, b |-> <<x>>])
\* what looks at the whole image
Whole == buf' = Unmapped(buf, old) /\ old' = -1 /\ S /\ CS /\ \E c \in {[op |-> "st"], [op |-> "entropy", k |-> "img"], [op |-> "img_copy", from |-> 0, to |-> 2]} : C(c)
Go == k < Depth
Is(c) == c \in Calls
Next == /\ Go
        /\ \/ Is("virt") /\ \E c \in BOOLEAN : ReadVirt(c)
           \/ Is("raw") /\ \E c \in BOOLEAN : ReadRaw(c)
           \/ Is("at") /\ \E v \in {"raw", "virt"}, a \in {0, 4} : a < Len(d) /\ ReadAt(v, a)
           \/ Is("empty") /\ Empty0
           \/ Is("set") /\ \E b \in {<<>>, <<9>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18>>} : SetRaw(b)
           \/ Is("size") /\ \E n \in {0, 2, 16, 40} : ResizeTo(n)
           \/ Is("vs") /\ \E n \in {0, 16, 33, 3} : SetVs(n)
           \/ Is("rs") /\ \E n \in {0, 20} : SetRs(n)
           \/ Is("edit") /\ \E a \in {0, 15} : WriteRaw(a, 77)
           \/ Is("vedit") /\ \E a \in {0, 15} : WriteVirt(a, 78)
           \/ Is("copy") /\ (Copy \/ CopyRead \/ CopyWrite(79))
           \/ Is("whole") /\ Whole
Spec == Init /\ [][Next]_vars

\* the buffer stands for the contents, however it is held
Stands == /\ Unmapped(buf, old) = d /\ Unmapped(cbuf, cold) = cd
          /\ (old # -1 => old = Len(d) /\ \A i \in (old + 1)..Len(buf) : buf[i] = 0)
\* what either view shows is what the specification says it shows
Shown == LET s == [vs |-> vs, va |-> Va, rs |-> rs, ptr |-> 0, d |-> d]  L == [sa |-> SA, fa |-> 16]
         IN /\ Mapped(buf, old).b = ViewBytes(s, 0, ViewLen(L, s, "virt"))
            /\ (IF old # -1 THEN old = 0 ELSE buf = <<>>) = (d = <<>>)
Beh == (~Go) => PrintT(<<"BEH", ToJson([raw |-> Raw0, vs |-> Vs0, calls |-> hist])>>)
RawA == <<1, 2, 3, 4, 5>>
RawB == <<>>
RawC == [i \in 1..20 |-> i] \o <<>>
=============================================================================

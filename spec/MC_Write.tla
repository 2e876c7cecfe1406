------------------------------ MODULE MC_Write ------------------------------
(* Writing and reloading: every image out of a family of created and edited *)
(* images is written with every combination of options, loaded, written and *)
(* loaded again.                                                            *)
EXTENDS Write, Json
CONSTANTS Fmts, Al, NSec, Datas, Stubs, Nrvas, Bounds, Opts, Deep   \* Deep: every byte of the file is checked to matter

VARIABLES img, calls, o, ph, out
vars == <<img, calls, o, ph, out>>

DataOf(k) == [i \in 1..k |-> IF i = k THEN 200 ELSE i % 5]
Blank(fmt, soh) == LET n == NewImage(fmt, Al, FALSE, 3) IN [n EXCEPT !.nt = Patch(Patch(Patch(@, oFa, LE4(Al)), oSoh, LE4(soh)), oSoi, LE4(soh))]
NewCalls(fmt, soh) == << [op |-> "new", fmt |-> fmt, sa |-> Al, subsys |-> 3], [op |-> "setfa_raw", fa |-> Al], [op |-> "setf", f |-> "soh", v |-> LE8(soh)], [op |-> "upd_size"] >>
\* SizeOfHeaders leaves room for the headers of NSec sections, or a little less or more
Soh0(fmt) == AlignUp(64 + NtSize(fmt) + 40 * NSec, Al)
AddCall(t) == [op |-> "addsec", raw |-> DataOf(t[1]), vs |-> t[2], name |-> <<46, 115>>, auto |-> t[3]]
AddOne(im, t) == LET x == MkSec(AddCall(t)) IN UnLay(im, Add(Lay(im), Sec(x), t[3]).L, x)
Sizes == {t \in Datas \X {0, 1, Al + 1} \X BOOLEAN : t[1] + t[2] > 0}
BoundsA == {<<>>, <<0, 8>>}
BoundsB == {<<>>, <<0, 16>>, <<4, 200>>, <<0, 1>>}
OptsAll == [strip : BOOLEAN, soh : BOOLEAN, bound : BOOLEAN]
OptsTwo == {[strip |-> FALSE, soh |-> TRUE, bound |-> TRUE], [strip |-> TRUE, soh |-> FALSE, bound |-> TRUE]}
StubOf(k) == [i \in 1..k |-> 64 + i]

Init == /\ \E fmt \in Fmts, room \in {-1, 0, 1} : LET h == Soh0(fmt) + room * Al IN img = Blank(fmt, h) /\ calls = NewCalls(fmt, h)
        /\ o = [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE] /\ ph = "build" /\ out = <<>>
AddSec == /\ ph = "build" /\ Len(img.secs) < NSec /\ \E t \in Sizes : img' = AddOne(img, t) /\ calls' = Append(calls, AddCall(t))
          /\ UNCHANGED <<o, ph, out>>
\* the rest of the image: stub, number of directories, bound import directory at the start of the last section
Finish == /\ ph = "build" /\ ph' = "built" /\ UNCHANGED <<out, o>>
          /\ \E k \in Stubs, n \in Nrvas, b \in Bounds :
                /\ b # <<>> => img.secs # <<>> /\ n > 11
                /\ LET i1 == [img EXCEPT !.stub = StubOf(k), !.nt = Patch(@, oNrva(img.fmt), LE4(n))]
                       r == U32(img.secs[Len(img.secs)].h, 12) + b[1]
                   IN /\ img' = IF b = <<>> THEN i1 ELSE [i1 EXCEPT !.nt = Patch(Patch(@, oDir(img.fmt, 11), LE4(r)), oDir(img.fmt, 11) + 4, LE4(b[2]))]
                      /\ calls' = calls \o <<[op |-> "stub_set", b |-> StubOf(k)], [op |-> "setf", f |-> "nrva", v |-> LE8(n)]>>
                                  \o (IF b = <<>> THEN <<>> ELSE <<[op |-> "dir_setrva", id |-> 11, v |-> LE8(r)], [op |-> "dir_setsize", id |-> 11, v |-> LE8(b[2])]>>)
                                  \o <<[op |-> "st"]>>
DoWrite == /\ ph = "built" /\ \E x \in Opts :
              LET W == WriteFile(img, x) IN
              /\ o' = x
              /\ IF WriteExc(img, x) # "none" THEN img' = img /\ out' = <<>> /\ ph' = "refused" /\ calls' = Append(calls, [op |-> "rebuild"] @@ x)
                 ELSE /\ img' = W.after /\ out' = W.out /\ ph' = "written"
                      /\ calls' = calls \o <<[op |-> "rebuild"] @@ x, [op |-> "load", file |-> 0, img |-> 1, opt |-> TRUE],
                                             [op |-> "rebuild", img |-> 1, file |-> 1, opt |-> TRUE] @@ x, [op |-> "load", file |-> 1, img |-> 2, opt |-> TRUE]>>
Next == AddSec \/ Finish \/ DoWrite
Spec == Init /\ [][Next]_vars

\* the requirements can be met
Meets == [][ph' = "written" => RebuildDiff(img, o', img', out') = {}]_vars
\* what is written can be loaded and is the image that was written
Loads == (ph = "written" /\ Reloadable(img)) => (Violations(out, 0, FALSE, 0) = {} /\ ReloadDiff(img, LoadImage(out, 0, FALSE, 0)) = {})
\* writing what was loaded gives the same file
Again == (ph = "written" /\ Reloadable(img)) =>
         LET r == LoadImage(out, 0, FALSE, 0)  o2 == [o EXCEPT !.soh = TRUE] IN
         (o.soh /\ WriteExc(r, o2) = "none") => WriteFile(r, o2).out = out
\* created and edited images can be written and reloaded
Fine == ph = "written" => WellFormed(Lay(img)) /\ ReloadOk(img)
\* no byte of the file is free
Pinned == (Deep /\ ph = "written") => \A p \in 1..Len(out) : RebuildDiff(img, o, img, [out EXCEPT ![p] = (@ + 1) % 256]) # {}
Beh == ph \in {"written", "refused"} => PrintT(<<"BEH", ToJson([calls |-> calls])>>)
=============================================================================

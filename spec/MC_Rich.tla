------------------------------ MODULE MC_Rich -------------------------------
(* The DOS stub and the Rich records in it: stubs put together from a       *)
(* prefix, the encoded records and a suffix, damaged, replaced, filled,     *)
(* stripped, written and loaded again.                                      *)
EXTENDS Write, Json
CONSTANTS F, Pres, Posts, Keys, RecLists, Hurts, Depth

VARIABLES img, src, hist, ph
vars == <<img, src, hist, ph>>
View == <<img, src, ph, Len(hist)>>

Rec(n, v, t) == [n |-> n, v |-> v, t |-> t]
R1 == Rec(<<1, 2>>, <<3, 4>>, <<5, 6, 7, 8>>)
R0 == Rec(<<0, 0>>, <<0, 0>>, <<0, 0, 0, 0>>)
R2 == Rec(<<255, 255>>, <<0, 128>>, <<255, 0, 255, 0>>)
ListsA == {<<>>, <<R1>>, <<R0>>, <<R1, R2>>, <<R2, R0, R1>>}
ListsB == {<<>>, <<R1>>, <<R0, R2>>}
KeysA == {<<0, 0, 0, 0>>, <<17, 34, 51, 68>>, <<255, 255, 255, 255>>}
KeysB == {<<17, 34, 51, 68>>, <<0, 0, 0, 0>>, <<22, 8, 13, 59>>}    \* the last one encodes DanS as Rich
KeyOne == <<17, 34, 51, 68>>
PresA == {<<>>, <<1>>, <<14, 31, 186, 0, 9>>}
PresB == {<<>>, <<82, 105, 99>>}
PostsA == {<<>>, <<7>>, <<0, 0, 0, 0>>, <<82, 105, 99, 104>>}
PostsB == {<<>>, <<9, 9, 9>>}
\* the records as the linker stores them
Encode(k, rs) == WXor(DansId, k) \o k \o k \o k
                 \o FlattenSeq([i \in 1..Len(rs) |-> WXor(rs[i].v \o rs[i].n, k) \o WXor(rs[i].t, k)]) \o RichId \o k
\* the damage done to it
Hurt(s, h) == IF h = "none" THEN s
              ELSE IF h = "noRich" THEN SubSeq(s, 1, Len(s) - 8) \o <<82, 105, 99, 105>> \o SubSeq(s, Len(s) - 3, Len(s))
              ELSE IF h = "noDanS" THEN [s EXCEPT ![4] = (@ + 1) % 256]
              ELSE IF h = "cutKey" THEN SubSeq(s, 1, Len(s) - 1)
              ELSE IF h = "cutRich" THEN SubSeq(s, 1, Len(s) - 5)
              ELSE IF h = "twice" THEN s \o s
              ELSE IF h = "swap" THEN SubSeq(s, Len(s) - 7, Len(s)) \o SubSeq(s, 1, Len(s) - 8)
              ELSE SubSeq(s, 1, 4)
All == [pre : Pres, post : Posts, key : Keys, recs : RecLists, hurt : Hurts]
Bytes(x) == x.pre \o Hurt(Encode(x.key, x.recs), x.hurt) \o x.post
At(s, w) == {o \in 0..(Len(s) - 4) : Raw(s, o, 4) = w}

None == [pre |-> <<>>, post |-> <<>>, key |-> <<0, 0, 0, 0>>, recs |-> <<>>, hurt |-> "gone"]
Img0 == [NewImage(F, 4096, FALSE, 3) EXCEPT !.nt = Patch(Patch(@, oSoh, LE4(1024)), oSoi, LE4(4096))]
Init == /\ img = Img0 /\ src = None /\ ph = "edit"
        /\ hist = <<[op |-> "new", fmt |-> F, sa |-> 4096, subsys |-> 3], [op |-> "setf", f |-> "soh", v |-> LE8(1024)]>>
Ask == <<[op |-> "rich"], [op |-> "stub_get"]>>
Put1(s, c, x) == img' = [img EXCEPT !.stub = s] /\ hist' = hist \o <<c>> \o Ask /\ src' = x /\ ph' = ph
\* (over another stub only plain ones, to keep the number of histories down)
SetStub == \E x \in (IF img.stub = <<>> THEN All ELSE [pre : {<<>>}, post : {<<>>}, key : {KeyOne}, recs : RecLists, hurt : {"none"}]) : Put1(Bytes(x), [op |-> "stub_set", b |-> Bytes(x)], x)
StripStub == Put1(<<>>, [op |-> "stub_strip"], None)
FillStub == \E c \in {0, 90} : Put1([i \in 1..Len(img.stub) |-> c], [op |-> "stub_fill", ch |-> c], None)
\* written and loaded again
Through == /\ Len(img.stub) > 0 /\ LET W == WriteFile(img, [strip |-> FALSE, soh |-> TRUE, bound |-> TRUE]) IN
              /\ img' = LoadImage(W.out, 0, FALSE, 0)
              /\ hist' = hist \o <<[op |-> "rebuild"], [op |-> "load", file |-> 0]>> \o Ask
              /\ src' = src /\ ph' = IF Violations(W.out, 0, FALSE, 0) = {} THEN ph ELSE "lost"
Stripped == /\ Len(img.stub) > 0 /\ hist' = hist \o <<[op |-> "rebuild", strip |-> TRUE]>> \o Ask /\ img' = [img EXCEPT !.stub = <<>>] /\ src' = None /\ ph' = ph
Go == Len(hist) < 3 * Depth + 2
Next == Go /\ (SetStub \/ StripStub \/ FillStub \/ Through \/ Stripped)
Spec == Init /\ [][Next]_vars

\* markers where they are meant, and nothing that looks like them before
Clean(x) == LET s == Bytes(x)  p == Len(x.pre)  e == Encode(x.key, x.recs)  D == WXor(DansId, x.key)
            IN /\ At(SubSeq(s, 1, p + Len(e)), RichId) = {p + Len(e) - 8}
               /\ SetMin(At(s, D)) = p
Wanted(x) == [i \in 1..Len(x.recs) |-> [n |-> x.recs[i].n \o <<0, 0>>, v |-> x.recs[i].v \o <<0, 0>>, t |-> x.recs[i].t]]
\* what was encoded is read back, wherever in the stub it is and whatever follows
Decodes == (src.hurt \in {"none", "twice"} /\ Clean(src)) => RichData(img.stub) = Wanted(src)
\* a missing marker means no records
Missing == /\ At(img.stub, RichId) = {} => RichData(img.stub) = <<>>
           /\ (src.hurt = "noRich" /\ At(Bytes(src), RichId) = {}) => RichData(img.stub) = <<>>
           /\ src.hurt = "gone" => RichData(img.stub) = <<>>
           /\ (src.hurt = "noDanS" /\ At(img.stub, WXor(DansId, src.key)) = {} /\ At(src.pre, RichId) = {}) => RichData(img.stub) = <<>>
\* no more records than fit
Fits == 8 * Len(RichData(img.stub)) <= Len(img.stub)
\* the stub goes through writing and loading but for the padding
Kept == src.hurt = "gone" \/ (SubSeq(img.stub, 1, Len(Bytes(src))) = Bytes(src) /\ \A i \in (Len(Bytes(src)) + 1)..Len(img.stub) : img.stub[i] = 0 /\ Len(img.stub) - Len(Bytes(src)) < 4)
Loads == ph # "lost"
Beh == ~Go => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

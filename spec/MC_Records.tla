----------------------------- MODULE MC_Records -----------------------------
(* Histories of copies, assignments, replacements and removals over two     *)
(* lists of debug records of every kind.  Every history is replayed on the  *)
(* real code, which keeps the part that depends on the kind in a union of   *)
(* owning pointers.                                                         *)
EXTENDS Debug, Json
CONSTANTS Depth, MaxLen
VARIABLES rc, last, hist
vars == <<rc, last, hist>>

Hd(t) == <<LE4(1), LE4(2), LE4(3), LE4(4), LE4(t), LE4(5), LE4(6), LE4(7)>>
Rec(t, adv, info) == [h |-> Hd(t), ty |-> t, adv |-> adv, info |-> info, only |-> TRUE]
Pdb7 == Rec(2, 1, [guid |-> [i \in 1..16 |-> i], age |-> LE4(9), s |-> <<97, 98>>])
Pdb2 == Rec(2, 2, [sig |-> LE4(10), age |-> LE4(11), s |-> [i \in 1..40 |-> 99]])
MiscA == Rec(4, 3, [dt |-> LE4(1), exe |-> TRUE, uni |-> FALSE, s |-> [i \in 1..40 |-> 100]])
MiscW == Rec(4, 3, [dt |-> LE4(2), exe |-> FALSE, uni |-> TRUE, s |-> [i \in 1..20 |-> 1025]])
CoffR == Rec(1, 4, [h |-> [k \in 1..8 |-> LE4(20 + k)], syms |-> <<[i |-> 0, cls |-> 103, type |-> 0, file |-> TRUE, s |-> <<102>>],
                    [i |-> 2, cls |-> 2, type |-> 32, file |-> FALSE, sec |-> 1, rva |-> LE4(4096), s |-> [i \in 1..30 |-> 103]]>>])
Nb == Rec(2, 6, EmptyMap)
Plain == Rec(9, 0, EmptyMap)
Kinds == {Pdb7, Pdb2, MiscA, MiscW, CoffR, Nb, Plain}

Init == /\ \E x, y \in Kinds : LET z == [y EXCEPT !.h[1] = LE4(77)] IN hist = <<[op |-> "dbg_make", to |-> 0, rec |-> x], [op |-> "dbg_make", to |-> 1, rec |-> z]>> /\ rc = (0 :> <<x>> @@ 1 :> <<z>>)
        /\ last = [op |-> "none", ok |-> TRUE]
Do(call) == LET r == RecOp(rc, call) IN
            /\ \A t \in DOMAIN r.recs : Len(r.recs[t]) <= MaxLen
            /\ rc' = r.recs /\ last' = call @@ [ok |-> r.ok] /\ hist' = Append(hist, call)
Ts == {0, 1}
Is(t) == 0..(Len(rc[t]) - 1)
Next == /\ Len(hist) < Depth + 2
        /\ \E f \in Ts, t \in Ts :
           \/ \E c \in {"dbg_copy", "dbg_move"} : (c = "dbg_move" \/ f # t) /\ Do([op |-> c, from |-> f, to |-> t])
           \/ \E i \in Is(t), j \in Is(f) : Do([op |-> "dbg_assign", from |-> f, to |-> t, i |-> i, j |-> j]) \/ ((f # t \/ i # j) /\ Do([op |-> "dbg_swap", from |-> f, to |-> t, i |-> i, j |-> j]))
           \/ \E j \in Is(f) : Do([op |-> "dbg_push", from |-> f, to |-> t, j |-> j])
           \/ f = t /\ \E i \in Is(t) : Do([op |-> "dbg_del", to |-> t, i |-> i]) \/ \E k \in Kinds : Do([op |-> "dbg_set", to |-> t, i |-> i, rec |-> k])
           \/ f = t /\ Do([op |-> "dbg_drop", from |-> f])
Spec == Init /\ [][Next]_vars

\* an operation changes its target only (a swap: both)
Target == IF last'.op = "dbg_drop" THEN {last'.from} ELSE IF last'.op = "dbg_swap" THEN {last'.from, last'.to} ELSE {last'.to}
Independent == [][\A t \in Ts \ Target : rc'[t] = rc[t]]_vars
Equal == [][/\ last'.op \in {"dbg_copy", "dbg_move"} => rc'[last'.to] = rc[last'.from]
            /\ last'.op = "dbg_assign" => rc'[last'.to][last'.i + 1] = rc[last'.from][last'.j + 1] /\ Len(rc'[last'.to]) = Len(rc[last'.to])]_vars
SelfSame == [][(last'.op = "dbg_assign" /\ last'.to = last'.from /\ last'.i = last'.j) => rc' = rc]_vars
Twice == [][last'.op = "dbg_swap" => RecOp(rc', last').recs = rc]_vars
Beh == (Len(hist) = Depth + 2) => PrintT(<<"BEH", ToJson([calls |-> hist])>>)
=============================================================================

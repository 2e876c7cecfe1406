----------------------------- MODULE MC_Values -----------------------------
(* Histories of copies, assignments and edits over two resource trees,      *)
(* including assignments of a part of a tree to itself, to its parent and   *)
(* to its own part.  Every history is replayed on the real code.            *)
EXTENDS Values, Json
CONSTANTS Depth, MaxSize
VARIABLES tr, last, hist
vars == <<tr, last, hist>>
View == <<tr, last, Len(hist)>>

Leaf(n, b) == DataEnt([named |-> FALSE, id |-> LE4(n), name |-> <<>>], Zeros(4), b)
T0 == [EmptyDir EXCEPT !.ents = <<DirEnt([named |-> TRUE, id |-> Zeros(4), name |-> <<65>>], [EmptyDir EXCEPT !.ents = <<Leaf(1, <<1, 2>>)>>]), Leaf(2, <<3>>)>>]
T1 == [EmptyDir EXCEPT !.ch = LE4(7), !.ents = <<Leaf(9, <<9>>)>>]

RECURSIVE Size(_)
Size(d) == FoldLeft(LAMBDA n, x : n + 1 + (IF x.k = "dir" THEN Size(x.sub[1]) ELSE 0), 1, d.ents)
\* paths of directories and of entries
RECURSIVE DirPaths(_, _)
DirPaths(d, p) == {p} \cup UNION {IF d.ents[i].k = "dir" THEN DirPaths(d.ents[i].sub[1], Append(p, i - 1)) ELSE {} : i \in 1..Len(d.ents)}
EntPaths(d) == UNION {{Append(p, i - 1) : i \in 1..Len(DirAtP(d, p).ents)} : p \in DirPaths(d, <<>>)}

Init == tr = (0 :> T0 @@ 1 :> T1) /\ last = [op |-> "none", x |-> "none"] /\ hist = <<>>
Do(call) == LET r == ValOp(tr, call) IN
            /\ \A t \in DOMAIN r.tr : Size(r.tr[t]) <= MaxSize
            /\ tr' = r.tr /\ last' = call @@ [x |-> r.x] /\ hist' = Append(hist, call)
Ts == {0, 1}
Next == /\ Len(hist) < Depth
        /\ \E f \in Ts, t \in Ts :
           \/ f # t /\ Do([op |-> "tree_copy", from |-> f, to |-> t])
           \/ \E a \in DirPaths(tr[f], <<>>), b \in DirPaths(tr[t], <<>>) : Do([op |-> "dir_assign", from |-> f, fp |-> a, to |-> t, tp |-> b])
           \/ \E a \in EntPaths(tr[f]), b \in EntPaths(tr[t]) : Do([op |-> "ent_assign", from |-> f, fp |-> a, to |-> t, tp |-> b])
           \/ \E a \in EntPaths(tr[f]), b \in DirPaths(tr[t], <<>>) : Do([op |-> "ent_push", from |-> f, fp |-> a, to |-> t, tp |-> b])
           \/ \E a \in DirPaths(tr[f], <<>>), b \in EntPaths(tr[t]) : Do([op |-> "ent_adddir", from |-> f, fp |-> a, to |-> t, tp |-> b])
           \/ \E a \in EntPaths(tr[f]), b \in EntPaths(tr[t]) : Do([op |-> "ent_adddata", from |-> f, fp |-> a, to |-> t, tp |-> b])
           \/ f = t /\ \E b \in EntPaths(tr[t]) : Do([op |-> "ent_data", to |-> t, tp |-> b, data |-> <<8, 8, 8>>, cp |-> LE4(5)]) \/ Do([op |-> "ent_del", to |-> t, tp |-> b])
                                                 \/ Do([op |-> "ent_key", to |-> t, tp |-> b, n |-> <<66>>])
           \/ f = t /\ Do([op |-> "tree_drop", tree |-> t])
Spec == Init /\ [][Next]_vars

\* an operation changes its target only
Target == IF last'.op = "tree_drop" THEN last'.tree ELSE last'.to
Independent == [][last'.op # "none" => \A t \in Ts : t # Target => tr'[t] = tr[t]]_vars
\* the target becomes equal to what the source was; assigning a thing to itself changes nothing
Equal == [][/\ last'.op = "tree_copy" => tr'[last'.to] = tr[last'.from]
            /\ last'.op = "dir_assign" => DirAtP(tr'[last'.to], last'.tp) = DirAtP(tr[last'.from], last'.fp)
            /\ last'.op = "ent_assign" => EntAtP(tr'[last'.to], last'.tp) = EntAtP(tr[last'.from], last'.fp)]_vars
SelfSame == [][(last'.op \in {"dir_assign", "ent_assign"} /\ last'.to = last'.from /\ last'.tp = last'.fp) => tr' = tr]_vars
Refused == [][last'.x # "none" => tr' = tr]_vars
Beh == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson([t0 |-> T0, t1 |-> T1, calls |-> hist])>>)
=============================================================================

------------------------------- MODULE Values -------------------------------
(* Resource trees, sections, debug records and images are values: copying   *)
(* or assigning one, or a part of one, yields an equal value that shares    *)
(* nothing with its source - also when the source is a part of the target   *)
(* or the target a part of the source.                                      *)
EXTENDS Debug

\* the directory at a path of entry positions, and the tree with another directory or entry there
RECURSIVE DirAtP(_, _), PutDirP(_, _, _)
DirAtP(T, p) == IF p = <<>> THEN T ELSE DirAtP(T.ents[p[1] + 1].sub[1], Tail(p))
PutDirP(T, p, d) == IF p = <<>> THEN d ELSE [T EXCEPT !.ents[p[1] + 1].sub = <<PutDirP(T.ents[p[1] + 1].sub[1], Tail(p), d)>>]
EntAtP(T, p) == DirAtP(T, Front(p)).ents[Last(p) + 1]
PutEntP(T, p, x) == LET d == DirAtP(T, Front(p)) IN PutDirP(T, Front(p), [d EXCEPT !.ents[Last(p) + 1] = x])

TreeOf(tr, t) == IF t \in DOMAIN tr THEN tr[t] ELSE EmptyDir
\* effect of an operation on the trees: [x: exception, tr: trees]
ValOp(tr, e) ==
    LET S == TreeOf(tr, Opt(e, "from", 0))
        T == TreeOf(tr, Opt(e, "to", 0))
        ok(t) == [x |-> "none", tr |-> Put(tr, e.to, t)]
        x == EntAtP(T, e.tp)
        y == EntAtP(S, e.fp)
    IN CASE e.op = "tree_copy" -> ok(S)
         [] e.op = "tree_drop" -> [x |-> "none", tr |-> Put(tr, e.tree, EmptyDir)]
         [] e.op = "dir_assign" -> ok(PutDirP(T, e.tp, DirAtP(S, e.fp)))
         [] e.op = "ent_assign" -> ok(PutEntP(T, e.tp, y))
         [] e.op = "ent_push" -> ok(PutDirP(T, e.tp, [DirAtP(T, e.tp) EXCEPT !.ents = Append(@, y)]))
         [] e.op = "ent_adddir" -> ok(PutEntP(T, e.tp, DirEnt(x, DirAtP(S, e.fp))))
         [] e.op = "ent_adddata" -> IF y.k = "data" THEN ok(PutEntP(T, e.tp, DataEnt(x, y.cp, y.data))) ELSE [x |-> ERR, tr |-> tr]
         [] e.op = "ent_swap" -> LET tr1 == Put(tr, e.to, PutEntP(T, e.tp, y)) IN [x |-> "none", tr |-> Put(tr1, e.from, PutEntP(TreeOf(tr1, e.from), e.fp, x))]
         [] e.op = "ent_key" -> ok(PutEntP(T, e.tp, IF Has(e, "n") THEN [x EXCEPT !.named = TRUE, !.name = e.n, !.id = Zeros(4)] ELSE [x EXCEPT !.named = FALSE, !.name = <<>>, !.id = e.id]))
         [] e.op = "ent_data" -> IF x.k = "data" THEN ok(PutEntP(T, e.tp, [x EXCEPT !.data = e.data, !.cp = e.cp])) ELSE [x |-> ERR, tr |-> tr]
         [] e.op = "ent_del" -> LET d == DirAtP(T, Front(e.tp)) IN ok(PutDirP(T, Front(e.tp), [d EXCEPT !.ents = DelAt(@, Last(e.tp) + 1)]))
         [] e.op = "dir_ch" -> ok(PutDirP(T, e.tp, [DirAtP(T, e.tp) EXCEPT !.ch = e.ch, !.ts = e.ts]))
         [] e.op = "dir_clear" -> ok(PutDirP(T, e.tp, [DirAtP(T, e.tp) EXCEPT !.ents = <<>>]))
TreeValOps == {"tree_copy", "tree_drop", "dir_assign", "ent_assign", "ent_push", "ent_adddir", "ent_adddata", "ent_swap", "ent_key", "ent_data", "ent_del", "dir_ch", "dir_clear"}

ValStep(env, e) ==
    IF e.op \in TreeValOps THEN
        LET R == ValOp(env.tree, e)
            Got == [i \in 1..Len(e.all) |-> e.all[i].t]
            wrong == {i \in 1..Len(e.all) : Strip(e.all[i].d) # TreeOf(R.tr, e.all[i].t)}
        IN Res([env EXCEPT !.tree = R.tr],
               (IF e.exc # R.x THEN XBad(e, R.x) ELSE {})
               \cup {"tree " \o ToString(Got[i]) \o " is not the expected one" : i \in wrong}
               \cup {"tree " \o ToString(t) \o " missing" : t \in {t \in DOMAIN R.tr : \A i \in 1..Len(Got) : Got[i] # t}})
    ELSE CASE e.op = "sec_copy" -> Res([env EXCEPT !.det = Put(env.det, e.to, TgtSec(env, e))], XBad(e, "none"))
           [] e.op = "sec_assign" -> Res([env EXCEPT !.det = Put(env.det, e.to, TgtSec(env, e))], XBad(e, "none"))
ValOpNames == TreeValOps \cup {"sec_copy", "sec_assign"}
=============================================================================

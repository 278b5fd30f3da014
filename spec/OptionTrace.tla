---------------------------- MODULE OptionTrace ----------------------------
(* Fits of one training problem under one set of limits that differ only in   *)
(* how the search is done: options, order of rows, order of columns.  The     *)
(* state keeps the value of the first tree; every other fit must agree.       *)
(* Trees are evaluated, not searched, so problems may be larger than those    *)
(* whose optimum the specification computes.                                  *)
EXTENDS Judge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prob, ref, bad
vars == <<l, prob, ref, bad>>

None == [feas |-> FALSE, v |-> <<>>]
Init == l = 1 /\ prob = [task |-> "none"] /\ ref = <<>> /\ bad = <<>>

(* cost of a tree whose leaves are their costs *)
RECURSIVE LeafSum(_)
LeafSum(t) == IF IsLeaf(t) THEN t[1] ELSE Add(LeafSum(t[2]), LeafSum(t[3]))

(* value of a tree: costs, or for F1 the numbers of misses and false alarms,  *)
(* or for the fair tasks mistakes and whether the limit is kept               *)
Value(p, e) ==
  CASE p.task = "f1-score" -> TreePair(p, <<0, 0>>, e.tree, All(p))
    [] IsPareto(p) -> LET g == Groups(p)
                          u == TreePair(p, g, e.tree, All(p))
                      IN <<u[1], IF Fair(p, g, u) THEN 1 ELSE 0>>
    [] IsTable(p) -> <<Add(LeafSum(e.costs), IF p.task = "survival-analysis" THEN 0 ELSE p.bc * TNodes(e.tree))>>
    [] OTHER -> <<Cost(p, e.tree)>>

Agree(p, u, v) ==
  CASE p.task = "f1-score" -> LET pos == Agg(p, All(p)).s[2] IN F1Geq(p, pos, u, v) /\ F1Geq(p, pos, v, u)
    [] IsPareto(p) -> u = v
    [] OTHER -> Abs(u[1] - v[1]) <= Tol(p, v[1])

Problem(e) == /\ e.ev = "problem"
              /\ prob' = e.p /\ ref' = <<>> /\ bad' = bad
Seen(e) == IF e.res = "inf" THEN None ELSE [feas |-> TRUE, v |-> Value(prob, e)]
Fit(e) ==
  /\ e.ev = "fit"
  /\ \E s \in {IF e.res = "err" THEN <<>> ELSE <<Seen(e)>>} :
       LET C == IF s = <<>> THEN {"crash"}
                ELSE IF ref = <<>> THEN {}
                ELSE IF s[1].feas # ref[1].feas THEN {"differs"}
                ELSE IF s[1].feas /\ ~Agree(prob, s[1].v, ref[1].v) THEN {"differs"} ELSE {}
       IN /\ ref' = IF ref = <<>> THEN s ELSE ref
          /\ bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])
  /\ UNCHANGED prob

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Problem(e) \/ Fit(e)
Spec == Init /\ [][Next]_vars

Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

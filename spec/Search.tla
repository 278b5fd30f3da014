------------------------------- MODULE Search -------------------------------
(* The search as a set of inferences.  The solver keeps, per subproblem       *)
(* (branch, depth, nodes), a lower bound, the best tree found and, once the   *)
(* two meet, the optimum.  It may draw the inferences in any order, be asked  *)
(* about any subproblem, and be stopped by the clock at any point.  What is   *)
(* kept must be true in every reachable state, whatever the order: this is    *)
(* what makes it safe to keep it between subproblems and between calls.       *)
(*                                                                            *)
(* Every inference has the side condition that makes it sound for the         *)
(* objectives it is used for.  Broken drops one side condition; the model     *)
(* checker then has to find a false bound or claim (see MCSearch).            *)
EXTENDS Judge

CONSTANTS Broken, D
VARIABLES prob,     \* the training problem
          true,     \* the optima of all its subproblems
          info,     \* rows, tested features, leaf cost and test costs of its branches
          lb, best, opt, expired
fixed == <<prob, true, info>>
vars == <<prob, true, info, lb, best, opt, expired>>

RECURSIVE Stack(_, _, _)
Stack(p, j, L) ==
  IF j = D THEN Leaves(p, L)
  ELSE The({The({Level(p, L, up, D - j) @@ up : up \in {The({Stack(p, j + 1, L1) : L1 \in {NextLevel(p, L)}})}}) : x \in {0}})

Tested(b) == {f \in 0..(prob.F - 1) : Digit(b, f) # 2}
Info == TLCEval([b \in DOMAIN true |->
          LET S == {i \in All(prob) : \A f \in Tested(b) : prob.rows[i].x[f + 1] = Digit(b, f)}
              a == Agg(prob, S)
          IN [rows |-> S, leaf |-> Leaf(prob, a, b), bc |-> TLCEval([f \in MayTest(prob) |-> BranchCost(prob, Tested(b), a, f)])]])
RowsOf(b) == info[b].rows
Budgets(j) == {<<d, k>> \in (1..(D - j)) \X (1..(2^D - 1)) : d <= k /\ k <= 2^d - 1}
Mine == DOMAIN lb
Everything == TLCEval(UNION {{<<b, n[1], n[2]>> : n \in Budgets(Cardinality(Tested(b)))} : b \in DOMAIN true})
True(e) == At(true[e[1]][e[2] + 1], e[3])
LeafOf(b) == info[b].leaf

(* the budget a child is really given *)
Norm(d, k) == LET k1 == Min2(k, 2^d - 1) IN <<Min2(d, k1), k1>>
Kid(e, f, v, k) == LET n == Norm(e[2] - 1, k) IN <<Assign(e[1], f, v), n[1], n[2]>>
BcOf(e, f) == info[e[1]].bc[f]
Free(e) == MayTest(prob) \ Tested(e[1])

(* bound and solution kept for a child; leaves are evaluated on the spot *)
LbKid(e) == IF e[3] = 0 THEN LeafOf(e[1]) ELSE lb[e]
Solved(e) == IF e[3] = 0 THEN TRUE ELSE opt[e] >= 0
OptKid(e) == IF e[3] = 0 THEN LeafOf(e[1]) ELSE opt[e]

SetLb(e, v) == v > lb[e] /\ lb' = [lb EXCEPT ![e] = v] /\ UNCHANGED <<fixed, best, opt, expired>>
SetBest(e, v) == v < best[e] /\ best' = [best EXCEPT ![e] = v] /\ UNCHANGED <<fixed, lb, opt, expired>>

(* --- solutions --- *)
TryLeaf(e) == ~expired /\ SetBest(e, LeafOf(e[1]))
TrySplit(e, f, i) ==
  /\ ~expired
  /\ \E l \in {Kid(e, f, 0, i)}, r \in {Kid(e, f, 1, e[3] - 1 - i)} :
       /\ Solved(l) /\ Solved(r)
       /\ SetBest(e, Add(BcOf(e, f), Add(OptKid(l), OptKid(r))))
Close(e) ==
  /\ ~expired
  /\ opt[e] < 0
  /\ best[e] <= lb[e]
  /\ opt' = [opt EXCEPT ![e] = best[e]]
  /\ UNCHANGED <<fixed, lb, best, expired>>

(* --- lower bounds --- *)
Splits(e) == {Add(BcOf(e, f) * (IF Broken = "twice" THEN 2 ELSE 1), Add(LbKid(Kid(e, f, 0, i)), LbKid(Kid(e, f, 1, e[3] - 1 - i))))
              : f \in (IF Broken = "skip" THEN {g \in Free(e) : g # SetMin(Free(e))} ELSE Free(e)), i \in 0..(e[3] - 1)}
Raise(e) == ~expired /\ SetLb(e, Min2(LeafOf(e[1]), SetMin(Splits(e))))
(* more depth and nodes never hurt *)
Larger(e, g) ==
  /\ ~expired
  /\ e[1] = g[1]
  /\ IF Broken = "smaller" THEN e[2] >= g[2] /\ e[3] >= g[3] ELSE e[2] <= g[2] /\ e[3] <= g[3]
  /\ SetLb(e, lb[g])
(* branches with the same rows *)
SameData(e, g) ==
  /\ e[1] # g[1] /\ e[2] = g[2] /\ e[3] = g[3]
  /\ RowsOf(e[1]) = RowsOf(g[1])
  /\ prob.task = "cost-sensitive" => Broken = "share"     \* test costs depend on the tests above
Share(e, g) ==
  /\ ~expired
  /\ SameData(e, g)
  /\ \/ SetLb(e, lb[g])
     \/ /\ opt[g] >= 0 /\ opt[e] < 0
        /\ opt' = [opt EXCEPT ![e] = opt[g]] /\ best' = [best EXCEPT ![e] = opt[g]] /\ lb' = [lb EXCEPT ![e] = opt[g]]
        /\ UNCHANGED <<fixed, expired>>
(* instances of the other branch that are not in this one cost at most the    *)
(* worst mistake each; leaves must stay large enough, so with a minimum leaf  *)
(* size the other branch has to contain this one                              *)
Worst(S) == IF prob.task = "cost-complex-accuracy" THEN prob.q * Weight(prob.rows, S) ELSE Weight(prob.rows, S)
Similar(e, g) ==
  /\ ~expired
  /\ prob.task \in {"accuracy", "cost-complex-accuracy"}
  /\ e[1] # g[1] /\ e[2] = g[2] /\ e[3] = g[3]
  /\ RowsOf(g[1]) # {}                                       \* an empty branch has no tree at all
  /\ prob.ml = 1 \/ RowsOf(e[1]) \subseteq RowsOf(g[1]) \/ Broken = "leafsize"
  /\ SetLb(e, lb[g] - (IF Broken = "free" THEN 0 ELSE Worst(RowsOf(g[1]) \ RowsOf(e[1]))))

(* --- the clock --- *)
Expire == ~expired /\ expired' = TRUE
          /\ UNCHANGED <<fixed, lb, best>>
          /\ opt' = IF Broken # "expire" THEN opt
                    ELSE [e \in Mine |-> IF opt[e] < 0 /\ best[e] < Inf THEN best[e] ELSE opt[e]]

Next == \/ \E e \in Mine : TryLeaf(e) \/ Raise(e) \/ Close(e) \/ (\E f \in Free(e), i \in 0..(e[3] - 1) : TrySplit(e, f, i))
        \/ \E e, g \in Mine : Larger(e, g) \/ Share(e, g) \/ Similar(e, g)
        \/ Expire

(* --- what must hold --- *)
BoundsTrue == \A e \in Mine : lb[e] <= True(e)
TreesTrue  == \A e \in Mine : best[e] >= True(e)
OptimaTrue == \A e \in Mine : opt[e] >= 0 => opt[e] = True(e)
(* a result that is claimed to be optimal is *)
RootOf == <<Root(prob), D, 2^D - 1>>
Claims == opt[RootOf] >= 0 => best[RootOf] = True(RootOf)
(* nothing is left to do only when everything is solved: the inferences suffice *)
Complete == (~expired /\ ~ENABLED (Next /\ expired' = FALSE)) => \A e \in Mine : True(e) < Inf => opt[e] = True(e)
=============================================================================

----------------------------- MODULE MCOptimal -----------------------------
(* The tables of Optimal and Pareto are themselves checked: for every data    *)
(* set over two features with at most M instances of each kind per feature    *)
(* pattern, and all limits, the table agrees with the explicit enumeration of *)
(* every tree.  Each behaviour fills in the counts of one pattern per step,   *)
(* so the states are all (partial) data sets.                                 *)
EXTENDS Judge

CONSTANTS TASK, M, F
VARIABLES rows

Patterns == [1..F -> {0, 1}]
Todo == CHOOSE s \in [1..(2^F) -> Patterns] : \A i, j \in 1..(2^F) : i # j => s[i] # s[j]
W == IF TASK \in {"group-fairness", "equality-of-opportunity"} THEN 4 ELSE 2

(* statistics a pattern may have; two kinds of instances per pattern *)
Kinds(x) ==
  CASE TASK \in {"accuracy", "cost-complex-accuracy", "f1-score", "cost-sensitive"} ->
         {[n |-> a + b, s |-> <<a, b>>] : a, b \in 0..M}
    [] TASK = "instance-cost-sensitive" ->
         {[n |-> a + b, s |-> <<a + 3 * b, 2 * a>>] : a, b \in 0..M}
    [] TASK = "regression" \/ TASK = "cost-complex-regression" ->    \* values 1 and 4
         {[n |-> a + b, s |-> <<a + 4 * b, a + 16 * b>>] : a, b \in 0..M}
    [] OTHER -> IF x[1] = 0 THEN {[n |-> a + b, s |-> <<a, b, 0, 0>>] : a, b \in 0..M}
                ELSE {[n |-> a + b, s |-> <<0, 0, a, b>>] : a, b \in 0..M}

Init == rows = <<>>
Next == /\ Len(rows) < 2^F
        /\ LET x == Todo[Len(rows) + 1] IN
           \E k \in Kinds(x) : rows' = Append(rows, [x |-> x, n |-> k.n, s |-> k.s])
Spec == Init /\ [][Next]_rows

P(ml) == [task |-> TASK, F |-> F, rows |-> SelectSeq(rows, LAMBDA r : r.n > 0), w |-> W, nl |-> 2, ml |-> ml,
          tol |-> 0, rel |-> 0, K |-> 60, q |-> 10, bc |-> 7, m |-> << <<0, 3>>, <<2, 0>> >>,
          fc |-> [f \in 1..F |-> [cost |-> f, disc |-> f \div 2, base |-> f, group |-> 0]], ln |-> 1, lq |-> 4]

(* every tree with depth at most d over the features in A *)
RECURSIVE AllTrees(_, _)
AllTrees(A, d) ==
  {<<l>> : l \in {0, 1}} \cup
  (IF d = 0 THEN {} ELSE UNION {{<<f, a, b>> : a, b \in AllTrees(A \ {f}, d - 1)} : f \in A})

Trees2 == [d \in 0..2 |-> AllTrees(0..(F - 1), d)]
TreesG == [d \in 0..2 |-> AllTrees(1..(F - 1), d)]
Space(p, d, k) == {t \in (IF W = 4 THEN TreesG[d] ELSE Trees2[d]) : TNodes(t) <= k /\ LeafSizesOK(t, p.rows, All(p), p.ml)}

Agree(p, tab, d, k) ==
  LET ts == Space(p, d, k) IN
  IF TASK = "f1-score"
  THEN At(Row(tab, d), k) = Keep(p, {TreePair(p, <<0, 0>>, t, All(p)) : t \in ts})
  ELSE IF IsPareto(p)
  THEN At(Row(tab, d), k) = Keep(p, {TreePair(p, Groups(p), t, All(p)) : t \in ts})
  ELSE Opt(tab, d, k) = SetMin({Cost(p, t) : t \in ts})

Complete == Len(rows) = 2^F
TableIsOptimum ==
  Complete => \A ml \in 1..2 : LET p == P(ml) IN
     \A tab \in {Table(p, 2)} : \A d \in 0..2 : \A k \in 0..(2^d - 1) : Agree(p, tab, d, k)
(* the plain recursion computes the same table *)
DirectIsTable ==
  Complete => \A ml \in 1..2 : LET p == P(ml) IN FullTable(p, 2) = Direct(p, 2)
(* depths beyond the number of features add nothing *)
DeepIsEnough ==
  Complete => \A ml \in 1..2 : LET p == P(ml) IN
     \A deep \in {FullTable(p, F + 1)}, tab \in {Table(p, F + 1)} :
        \A d \in 0..(F + 1) : \A k \in 0..(2^d - 1) : At(deep[d + 1], k) = At(Row(tab, d), k)
(* more budget never hurts; a leaf is always within the limits when the data is large enough *)
Monotone ==
  (Complete /\ ~IsPareto(P(1))) => \A tab \in {Table(P(1), 2)} :
     \A d \in 0..1 : \A k \in 0..(2^d - 1) : Opt(tab, d, k) >= Opt(tab, d + 1, k)
=============================================================================

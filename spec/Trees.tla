------------------------------- MODULE Trees -------------------------------
(* Decision trees over binary features, independent of any objective.        *)
(* A tree is <<label>> (leaf) or <<f, t0, t1>>: test feature f (0-based) and  *)
(* continue in t0 when it does not hold, in t1 when it does.                  *)
(* A data row is a record with x (sequence of 0/1), n (multiplicity) and s    *)
(* (task specific statistics, summed over the n copies).                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

IsLeaf(t) == Len(t) = 1
Holds(x, f) == x[f + 1] = 1
Child(t, x) == IF Holds(x, t[1]) THEN t[3] ELSE t[2]

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE TDepth(_)
TDepth(t) == IF IsLeaf(t) THEN 0 ELSE 1 + Max2(TDepth(t[2]), TDepth(t[3]))

RECURSIVE TNodes(_)
TNodes(t) == IF IsLeaf(t) THEN 0 ELSE 1 + TNodes(t[2]) + TNodes(t[3])

(* The leaf label an instance receives, and the number of tests it undergoes *)
RECURSIVE Route(_, _)
Route(t, x) == IF IsLeaf(t) THEN t[1] ELSE Route(Child(t, x), x)
RECURSIVE PathLen(_, _)
PathLen(t, x) == IF IsLeaf(t) THEN 0 ELSE 1 + PathLen(Child(t, x), x)

(* Tests only features in A, none twice on a path *)
RECURSIVE WellFormed(_, _)
WellFormed(t, A) ==
  IF IsLeaf(t) THEN TRUE
  ELSE /\ Len(t) = 3
       /\ t[1] \in A
       /\ WellFormed(t[2], A \ {t[1]})
       /\ WellFormed(t[3], A \ {t[1]})

Weight(rows, S) == MapThenSumSet(LAMBDA i : rows[i].n, S)
Sub(rows, S, f, v) == {i \in S : rows[i].x[f + 1] = v}

(* Every leaf receives at least m of the instances *)
RECURSIVE LeafSizesOK(_, _, _, _)
LeafSizesOK(t, rows, S, m) ==
  IF IsLeaf(t) THEN Weight(rows, S) >= m
  ELSE /\ LeafSizesOK(t[2], rows, Sub(rows, S, t[1], 0), m)
       /\ LeafSizesOK(t[3], rows, Sub(rows, S, t[1], 1), m)

(* The set of leaf labels *)
RECURSIVE LeafLabels(_)
LeafLabels(t) == IF IsLeaf(t) THEN {t[1]} ELSE LeafLabels(t[2]) \cup LeafLabels(t[3])
=============================================================================

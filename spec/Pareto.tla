------------------------------- MODULE Pareto -------------------------------
(* Objectives that are not a sum of one number per leaf: the F1 score and the *)
(* two fairness constraints.  A tree is summarised by a pair                  *)
(*   f1-score        <<false negatives, false positives>>                     *)
(*   fairness tasks  <<mistakes, delta>>, delta = a*G1 - b*G0 where a and b   *)
(*                   count the positively predicted instances of the groups   *)
(*                   and G0, G1 are the group sizes                           *)
(* and the table keeps, per branch and budget, the pairs that can still be    *)
(* part of a best tree.                                                       *)
EXTENDS Optimal

(* statistics: f1 <<neg, pos>>; fairness <<neg0, pos0, neg1, pos1>> *)
Groups(p) == LET a == Agg(p, All(p)) IN
  IF p.task = "group-fairness" THEN <<a.s[1] + a.s[2], a.s[3] + a.s[4]>> ELSE <<a.s[2], a.s[4]>>

LabelPair(p, g, a, l) ==
  IF p.task = "f1-score"
  THEN IF l = 1 THEN <<0, a.s[1]>> ELSE <<a.s[2], 0>>
  ELSE LET in0 == IF p.task = "group-fairness" THEN a.s[1] + a.s[2] ELSE a.s[2]
           in1 == IF p.task = "group-fairness" THEN a.s[3] + a.s[4] ELSE a.s[4]
       IN IF l = 1 THEN <<a.s[1] + a.s[3], in0 * g[2] - in1 * g[1]>>
          ELSE <<a.s[2] + a.s[4], 0>>

PairAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>

(* pairs that no other pair makes superfluous *)
Keep(p, S) ==
  IF p.task = "f1-score"
  THEN {u \in S : ~\E v \in S : v # u /\ v[1] <= u[1] /\ v[2] <= u[2]}
  ELSE {u \in S : ~\E v \in S : v[2] = u[2] /\ v[1] < u[1]}

PairConv(p, l, r, k) ==
  UNION {{PairAdd(u, v) : u \in At(l, i), v \in At(r, k - 1 - i)} : i \in 0..(k - 1)}

BranchFronts(p, n, leaf, fs, kid, b, dmax) ==
  TLCEval([d1 \in 1..(dmax + 1) |->
     IF d1 = 1 THEN <<leaf>>
     ELSE IF n < 2 * p.ml THEN TLCEval([k1 \in 1..(2^(d1 - 1)) |-> leaf])
     ELSE TLCEval([k1 \in 1..(2^(d1 - 1)) |->
            IF k1 = 1 THEN leaf
            ELSE Keep(p, leaf \cup UNION {PairConv(p, kid[Assign(b, f, 0)][d1 - 1], kid[Assign(b, f, 1)][d1 - 1], k1 - 1)
                                          : f \in fs})])])

FLeaf(p, g, a) == Keep(p, IF a.n >= p.ml THEN {LabelPair(p, g, a, 0), LabelPair(p, g, a, 1)} ELSE {})
FLeaves(p, g, L) == TLCEval([b \in DOMAIN L |-> << <<FLeaf(p, g, Agg(p, L[b].S))>> >>])
FLevel(p, g, L, kid, dmax) ==
  TLCEval([b \in DOMAIN L |->
     The({BranchFronts(p, a.n, FLeaf(p, g, a), MayTest(p) \ L[b].T, kid, b, dmax) : a \in {Agg(p, L[b].S)}})])

RECURSIVE FTab(_, _, _, _, _)
FTab(p, g, j, D, L) ==
  IF j = D THEN FLeaves(p, g, L)
  ELSE The({FLevel(p, g, L, kid, D - j) : kid \in {The({FTab(p, g, j + 1, D, L1) : L1 \in {NextLevel(p, L)}})}})

FrontTable(p, D) == FTab(p, TLCEval(Groups(p)), 0, D, TLCEval(Level0(p)))[Root(p)]

(* Fairness: |a/G0 - b/G1| <= ln/lq *)
Fair(p, g, u) == Abs(u[2]) * p.lq <= p.ln * g[1] * g[2]

RECURSIVE TreePair(_, _, _, _)
TreePair(p, g, t, S) ==
  IF IsLeaf(t) THEN LabelPair(p, g, Agg(p, S), t[1])
  ELSE PairAdd(TreePair(p, g, t[2], Sub(p.rows, S, t[1], 0)), TreePair(p, g, t[3], Sub(p.rows, S, t[1], 1)))

(* F1 of u is at least that of v: tp/(2tp+fp+fn), pos = total positives *)
F1Num(p, pos, u) == 2 * (pos - u[1])
F1Den(p, pos, u) == 2 * (pos - u[1]) + u[1] + u[2]
F1Geq(p, pos, u, v) == F1Num(p, pos, u) * F1Den(p, pos, v) >= F1Num(p, pos, v) * F1Den(p, pos, u)
=============================================================================

------------------------------ MODULE HoldOut ------------------------------
(* Honest validation.  When every fold is a single instance, the score of a   *)
(* candidate on a fold is that of the held-out instance in some tree that is  *)
(* optimal, within the candidate's limits, for the other instances.  All      *)
(* trees are enumerated, so ties are resolved in every way the search may.    *)
EXTENDS Judge

RECURSIVE TreesOver(_, _, _)
TreesOver(A, d, L) ==
  {<<l>> : l \in L} \cup
  (IF d = 0 THEN {} ELSE UNION {{<<f, a, b>> : a, b \in TreesOver(A \ {f}, d - 1, L)} : f \in A})

(* of the trees for the instances other than i: depth, nodes, cost, label of i *)
Facts(p, Ts, i) ==
  LET S == All(p) \ {i} IN
  {[d |-> TDepth(t), k |-> TNodes(t), l |-> Route(t, p.rows[i].x),
    c |-> MapThenSumSet(LAMBDA j : IF p.task = "accuracy" THEN 1 - p.rows[j].s[Route(t, p.rows[j].x) + 1]
                                   ELSE p.rows[j].s[Route(t, p.rows[j].x) + 1], S)]
   : t \in {u \in Ts : LeafSizesOK(u, p.rows, S, p.ml)}}

(* labels the held-out instance may get within the limits *)
HeldLabels(fs, d, k) ==
  The({{u.l : u \in {v \in ws : v.c = SetMin({w.c : w \in ws})}} : ws \in {{v \in fs : v.d <= d /\ v.k <= k}}})

(* lims[c] = <<d, k>>; sc[c][r] = <<score, 1>> if it was observed *)
Matches(p, S, s, i, l) ==
  IF p.task = "accuracy" THEN Abs(s - S * p.rows[i].s[l + 1]) <= 2
  ELSE Abs(s * p.C - S * p.rows[i].s[l + 1]) <= 2 * p.C
Possible(p, S, fs, lims, sc, r, i) ==
  \A c \in 1..Len(lims) : sc[c][r] # <<>> /\ sc[c][r][2] = 1 =>
     \A L \in {HeldLabels(fs, lims[c][1], lims[c][2])} : L = {} \/ \E l \in L : Matches(p, S, sc[c][r][1], i, l)

RECURSIVE Assignable(_, _, _)     \* a different instance for every fold
Assignable(can, r, free) == r = 0 \/ \E i \in free \cap can[r] : Assignable(can, r - 1, free \ {i})

Honest(p, S, lims, sc) ==
  LET D == FoldSet(LAMBDA x, y : Max2(x, y), 0, {lims[c][1] : c \in 1..Len(lims)}) IN
  \A Ts \in {TreesOver(MayTest(p), D, 0..(p.nl - 1))} :
    \A fs \in {TLCEval([i \in All(p) |-> Facts(p, Ts, i)])} :
      \A can \in {TLCEval([r \in All(p) |-> {i \in All(p) : Possible(p, S, fs[i], lims, sc, r, i)}])} :
        Assignable(can, Len(p.rows), All(p))
=============================================================================

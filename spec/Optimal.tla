------------------------------ MODULE Optimal ------------------------------
(* The optimum over all trees within depth, node and leaf-size limits, for    *)
(* objectives with a single numeric cost.                                     *)
(*                                                                            *)
(* OptTable(p, D) maps the depth limit d (0..D) and node limit k to the least *)
(* cost, computed level by level over the branches of the search space: a     *)
(* branch is an assignment of 0/1 to some features, coded in base 3.          *)
EXTENDS Tasks

(* Branches with their tested features and matching rows *)
Level0(p) == [b \in {Root(p)} |-> [T |-> {}, S |-> All(p)]]
Digit(b, f) == (b \div 3^f) % 3
NextLevel(p, L) ==
  LET codes == UNION {{Assign(b, f, v) : f \in {g \in MayTest(p) : \A h \in L[b].T : g > h}, v \in {0, 1}} : b \in DOMAIN L}
  IN TLCEval([c \in codes |->
        LET f == CHOOSE g \in MayTest(p) : Digit(c, g) # 2 /\ \A h \in MayTest(p) : h > g => Digit(c, h) = 2
            v == Digit(c, f)
            parent == c + (2 - v) * 3^f
        IN [T |-> L[parent].T \cup {f}, S |-> Sub(p.rows, L[parent].S, f, v)]])

At(v, k) == v[Min2(k, Len(v) - 1) + 1]          \* node budgets above the maximum are equivalent

(* least over i + j = k - 1 of left[i] + right[j] *)
SetMin(S) == FoldSet(LAMBDA x, y : Min2(x, y), Inf, S)
Conv(l, r, k) == SetMin({Add(At(l, i), At(r, k - 1 - i)) : i \in 0..(k - 1)})

(* The value of E for the one element of a singleton; forces TLC to evaluate  *)
(* the element once instead of at every use                                   *)
The(S) == CHOOSE x \in S : TRUE

(* Split(p, a, T, Tl, Tr, ...): vector over node budgets for one branch *)
BranchVecs(p, a, leaf, T, fs, kid, b, dmax) ==
  TLCEval([d1 \in 1..(dmax + 1) |->
     IF d1 = 1 THEN <<leaf>>
     ELSE IF a.n < 2 * p.ml THEN TLCEval([k1 \in 1..(2^(d1 - 1)) |-> leaf])
     ELSE The({TLCEval([k1 \in 1..(2^(d1 - 1)) |->
                 IF k1 = 1 THEN leaf
                 ELSE Min2(leaf, SetMin({Add(o.bc, Conv(o.l, o.r, k1 - 1)) : o \in opts}))])
               : opts \in {{[bc |-> BranchCost(p, T, a, f), l |-> kid[Assign(b, f, 0)][d1 - 1],
                        r |-> kid[Assign(b, f, 1)][d1 - 1]] : f \in fs}}})])

Leaf(p, a, b) == IF a.n >= p.ml THEN LeafCost(p, a, b) ELSE Inf
Leaves(p, L) == TLCEval([b \in DOMAIN L |-> << <<Leaf(p, Agg(p, L[b].S), b)>> >>])
Level(p, L, kid, dmax) ==
  TLCEval([b \in DOMAIN L |->
     The({BranchVecs(p, al[1], al[2], L[b].T, MayTest(p) \ L[b].T, kid, b, dmax)
           : al \in {<<a, Leaf(p, a, b)>> : a \in {Agg(p, L[b].S)}}})])

(* Tab(p, j, D, L): for every branch b at level j, the sequence over depth    *)
(* budgets 0..D-j of vectors over node budgets 0..2^d-1                       *)
RECURSIVE Tab(_, _, _, _)
Tab(p, j, D, L) ==
  IF j = D THEN Leaves(p, L)
  ELSE The({Level(p, L, kid, D - j) : kid \in {The({Tab(p, j + 1, D, L1) : L1 \in {NextLevel(p, L)}})}})

OptTable(p, D) == Tab(p, 0, D, TLCEval(Level0(p)))[Root(p)]

(* No path tests a feature twice, so a table need not go deeper than there    *)
(* are features: its last row stands for all greater depths (MCOptimal).      *)
Deepest(p, D) == Min2(D, Cardinality(MayTest(p)))
Row(tab, d) == tab[Min2(d + 1, Len(tab))]

(* least cost with depth at most d and at most k tests *)
Opt(tab, d, k) == At(Row(tab, d), k)
=============================================================================

-------------------------------- MODULE Wide --------------------------------
(* The same optima as Optimal and Pareto, by plain recursion over row sets    *)
(* instead of a table over branch codes.  It needs no codes, so the number of *)
(* features is not bounded by the integers of TLC; the depth is, by time.     *)
(* MCOptimal checks that both definitions agree.                                 *)
EXTENDS Pareto

RECURSIVE DirectVec(_, _, _, _)
DirectVec(p, S, T, d) ==
  The({IF d = 0 THEN <<al[2]>>
       ELSE IF al[1].n < 2 * p.ml THEN TLCEval([k1 \in 1..(2^d) |-> al[2]])
       ELSE The({TLCEval([k1 \in 1..(2^d) |->
                   IF k1 = 1 THEN al[2]
                   ELSE Min2(al[2], SetMin({Add(o.bc, Conv(o.l, o.r, k1 - 1)) : o \in opts}))])
                 : opts \in {{[bc |-> BranchCost(p, T, al[1], f),
                               l |-> DirectVec(p, Sub(p.rows, S, f, 0), T \cup {f}, d - 1),
                               r |-> DirectVec(p, Sub(p.rows, S, f, 1), T \cup {f}, d - 1)] : f \in MayTest(p) \ T}}})
       : al \in {<<a, Leaf(p, a, 0)>> : a \in {Agg(p, S)}}})

RECURSIVE DirectFront(_, _, _, _, _)
DirectFront(p, g, S, T, d) ==
  The({IF d = 0 THEN <<al[2]>>
       ELSE IF al[1].n < 2 * p.ml THEN TLCEval([k1 \in 1..(2^d) |-> al[2]])
       ELSE The({TLCEval([k1 \in 1..(2^d) |->
                   IF k1 = 1 THEN al[2]
                   ELSE Keep(p, al[2] \cup UNION {PairConv(p, o.l, o.r, k1 - 1) : o \in opts})])
                 : opts \in {{[l |-> DirectFront(p, g, Sub(p.rows, S, f, 0), T \cup {f}, d - 1),
                               r |-> DirectFront(p, g, Sub(p.rows, S, f, 1), T \cup {f}, d - 1)] : f \in MayTest(p) \ T}}})
       : al \in {<<a, FLeaf(p, g, a)>> : a \in {Agg(p, S)}}})

PairTask(p) == p.task \in {"f1-score", "group-fairness", "equality-of-opportunity"}
Direct(p, D) ==
  TLCEval([d1 \in 1..(D + 1) |-> IF PairTask(p) THEN DirectFront(p, TLCEval(Groups(p)), All(p), {}, d1 - 1)
                                 ELSE DirectVec(p, All(p), {}, d1 - 1)])
=============================================================================

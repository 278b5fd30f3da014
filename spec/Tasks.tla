------------------------------- MODULE Tasks -------------------------------
(* Objectives.  A problem is a record p with                                  *)
(*   task   name of the objective      F   number of binary features          *)
(*   rows   the training data          w   width of the statistics vectors    *)
(*   ml     minimum leaf size          plus task parameters.                  *)
(* Costs are integers; real-valued objectives are in fixed point (p.K units). *)
EXTENDS Trees

Inf == 1000000000
Add(a, b) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b
SeqMin(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
SeqMax(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]

(* Aggregated statistics of the rows in S *)
Agg(p, S) == [n |-> Weight(p.rows, S),
              s |-> TLCEval([j \in 1..p.w |-> MapThenSumSet(LAMBDA i : p.rows[i].s[j], S)])]

All(p) == 1..Len(p.rows)
MayTest(p) == IF p.task \in {"group-fairness", "equality-of-opportunity"}
              THEN 1..(p.F - 1) ELSE 0..(p.F - 1)

(* Squared error of the n values with sum s[1] and sum of squares s[2] around *)
(* their mean, in units of 1/K                                                *)
SSE(p, a) == IF a.n = 0 THEN 0 ELSE p.K * a.s[2] - (p.K * a.s[1] * a.s[1]) \div a.n

(* Cost of giving label l (0-based) to instances with aggregate a *)
LabelCost(p, a, l) ==
  CASE p.task = "accuracy" -> a.n - a.s[l + 1]
    [] p.task = "cost-complex-accuracy" -> p.q * (a.n - a.s[l + 1])
    [] p.task = "cost-sensitive" -> MapThenSumSet(LAMBDA k : p.m[k][l + 1] * a.s[k], 1..p.w)
    [] p.task \in {"instance-cost-sensitive", "prescriptive-policy"} -> a.s[l + 1]

Labels(p) == 0..(p.w - 1)

(* Cheapest leaf; b is the branch code, used by table-driven objectives *)
LeafCost(p, a, b) ==
  CASE p.task \in {"regression", "cost-complex-regression"} -> SSE(p, a)
    [] p.task \in {"survival-analysis", "simple-linear-regression", "piecewise-linear-regression"} -> p.leaf[b + 1]
    [] OTHER -> SeqMin([l \in 1..p.w |-> LabelCost(p, a, l - 1)])

(* Cost of testing f on instances with aggregate a when the features in T     *)
(* were tested before on the path                                             *)
TestCost(p, T, f) ==
  IF \E g \in T : p.fc[g + 1].base = p.fc[f + 1].base THEN 0
  ELSE IF \E g \in T : p.fc[g + 1].group = p.fc[f + 1].group THEN p.fc[f + 1].disc
  ELSE p.fc[f + 1].cost

BranchCost(p, T, a, f) ==
  CASE p.task \in {"cost-complex-accuracy", "cost-complex-regression",
                   "simple-linear-regression", "piecewise-linear-regression"} -> p.bc
    [] p.task = "cost-sensitive" -> a.n * TestCost(p, T, f)
    [] OTHER -> 0

(* Total cost of a tree whose leaves carry the labels of the tree (integer    *)
(* label tasks) or their optimal value (regression, survival)                 *)
HasLabels(p) == p.task \in {"accuracy", "cost-complex-accuracy", "cost-sensitive",
                            "instance-cost-sensitive", "prescriptive-policy"}
Pow3(f) == 3^f
Assign(b, f, v) == b - (2 - v) * Pow3(f)      \* branch code: base-3 digits, 2 = untested
Root(p) == 3^(p.F) - 1

RECURSIVE TreeCost(_, _, _, _, _)
TreeCost(p, t, S, T, b) ==
  LET a == Agg(p, S) IN
  IF IsLeaf(t) THEN IF HasLabels(p) THEN LabelCost(p, a, t[1]) ELSE LeafCost(p, a, b)
  ELSE Add(BranchCost(p, T, a, t[1]),
           Add(TreeCost(p, t[2], Sub(p.rows, S, t[1], 0), T \cup {t[1]}, Assign(b, t[1], 0)),
               TreeCost(p, t[3], Sub(p.rows, S, t[1], 1), T \cup {t[1]}, Assign(b, t[1], 1))))
Cost(p, t) == TreeCost(p, t, All(p), {}, Root(p))
=============================================================================

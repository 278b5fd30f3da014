------------------------------- MODULE Judge -------------------------------
(* What a user may conclude from a finished fit, prediction or evaluation:    *)
(* every operator is the set of names of the clauses an observation breaks.   *)
EXTENDS Wide

IsPareto(p) == PairTask(p)
IsReal(p)   == p.task \in {"regression", "cost-complex-regression", "survival-analysis",
                           "simple-linear-regression", "piecewise-linear-regression"}
IsTable(p)  == p.task \in {"survival-analysis", "simple-linear-regression", "piecewise-linear-regression"}

FullTable(p, D) == IF p.F > 12 THEN Direct(p, D) ELSE IF IsPareto(p) THEN FrontTable(p, D) ELSE OptTable(p, D)
Table(p, D) == FullTable(p, Deepest(p, D))

(* --- existence of a tree within the limits (and the upper bound) --- *)
FairPairs(p, S) == LET g == Groups(p) IN {u \in S : Fair(p, g, u)}
Exists(p, tab, d, k) ==
  CASE p.task = "f1-score" -> At(Row(tab, d), k) # {}
    [] IsPareto(p) -> FairPairs(p, At(Row(tab, d), k)) # {}
    [] OTHER -> Opt(tab, d, k) < Inf

(* rounding allowance for objectives that are sums of reals *)
Tol(p, c) == p.tol + (IF p.rel = 0 THEN 0 ELSE c \div p.rel)

(* --- the tree attains the optimum --- *)
Attains(p, tab, d, k, t) ==
  CASE p.task = "f1-score" ->
         LET pos == Agg(p, All(p)).s[2]
             u == TreePair(p, <<0, 0>>, t, All(p))
         IN \A v \in At(Row(tab, d), k) : F1Geq(p, pos, u, v)
    [] IsPareto(p) ->
         LET g == Groups(p)
             u == TreePair(p, g, t, All(p))
         IN Fair(p, g, u) /\ \A v \in FairPairs(p, At(Row(tab, d), k)) : u[1] <= v[1]
    [] OTHER -> The({Abs(Cost(p, t) - o) <= Tol(p, o) : o \in {Opt(tab, d, k)}})

(* --- structure --- *)
Structure(p, d, k, e) ==
     (IF TDepth(e.tree) <= d THEN {} ELSE {"depth"})
  \cup (IF TNodes(e.tree) <= k THEN {} ELSE {"nodes"})
  \cup (IF WellFormed(e.tree, MayTest(p)) THEN {} ELSE {"wellformed"})
  \cup (IF LeafSizesOK(e.tree, p.rows, All(p), p.ml) THEN {} ELSE {"leafsize"})
  \cup (IF e.dep = TDepth(e.tree) /\ e.nod = TNodes(e.tree) /\ e.lea = e.nod + 1 THEN {} ELSE {"reported"})

(* --- leaf values of the real-valued tasks, in units of 1/p.V --- *)
RECURSIVE LeafValuesOK(_, _, _, _)
LeafValuesOK(p, t, S, b) ==
  IF ~IsLeaf(t) THEN /\ LeafValuesOK(p, t[2], Sub(p.rows, S, t[1], 0), Assign(b, t[1], 0))
                     /\ LeafValuesOK(p, t[3], Sub(p.rows, S, t[1], 1), Assign(b, t[1], 1))
  ELSE IF p.task \in {"regression", "cost-complex-regression"}
       THEN LET a == Agg(p, S) IN Abs(t[1] * a.n - p.V * a.s[1]) <= 2 * a.n
  ELSE IF p.task = "survival-analysis" THEN Abs(t[1] - p.val[b + 1]) <= 2 + p.val[b + 1] \div 5000
  ELSE t[1] <= p.leaf[b + 1] + p.ltol + p.leaf[b + 1] \div p.rel   \* linear leaves: the label is their cost
Labelled(p, t) ==
  IF IsReal(p) THEN LeafValuesOK(p, t, All(p), Root(p))
  ELSE \A l \in LeafLabels(t) : l \in 0..(p.nl - 1)

(* --- average number of nodes on the paths, leaf included; in units of 1/10000 --- *)
Paths(t, rows) == MapThenSumSet(LAMBDA i : rows[i].n * (1 + PathLen(t, rows[i].x)), 1..Len(rows))
Total(rows) == Weight(rows, 1..Len(rows))
QLenOK(t, rows, q) == Abs(q * Total(rows) - 10000 * Paths(t, rows)) <= 2 * Total(rows)

(* --- scores; v in units of 1/p.S --- *)
Near(v, num, den, S, slack) == Abs(v) <= 2000000000 \div den /\ Abs(v * den - num * S) <= slack * den

(* Sum over rows of the row statistic selected by its leaf label *)
Cell(p, rows, t, F(_, _)) == MapThenSumSet(LAMBDA i : F(rows[i], Route(t, rows[i].x)), 1..Len(rows))

(* test loss of regression trees: leaf means are exact rationals of the       *)
(* training data; result in units of 1/p.K                                    *)
RECURSIVE MeanLoss(_, _, _, _, _)
MeanLoss(p, rows, t, S, R) ==
  IF ~IsLeaf(t) THEN MeanLoss(p, rows, t[2], Sub(p.rows, S, t[1], 0), Sub(rows, R, t[1], 0))
                     + MeanLoss(p, rows, t[3], Sub(p.rows, S, t[1], 1), Sub(rows, R, t[1], 1))
  ELSE LET a == Agg(p, S)
           b == Agg([p EXCEPT !.rows = rows], R)
           sq == p.K * a.s[1] * a.s[1]            \* the mean squared is sq / (K n n)
       IN p.K * b.s[2] - (2 * p.K * a.s[1] * b.s[1]) \div a.n
          + ((sq \div a.n) * b.n) \div a.n + ((sq % a.n) * b.n) \div (a.n * a.n)

(* index of the leaf (left to right) an instance reaches *)
RECURSIVE LeafIx(_, _)
LeafIx(t, x) == IF IsLeaf(t) THEN 1
                ELSE IF Holds(x, t[1]) THEN TNodes(t[2]) + 1 + LeafIx(t[3], x) ELSE LeafIx(t[2], x)

Mistakes(p, rows, t) == Cell(p, rows, t, LAMBDA r, l : r.n - (IF l + 1 \in DOMAIN r.s THEN r.s[l + 1] ELSE 0))

(* cost of the tests the instances of rows undergo *)
RECURSIVE TestCosts(_, _, _, _, _)
TestCosts(p, rows, t, R, T) ==
  IF IsLeaf(t) THEN 0
  ELSE Weight(rows, R) * TestCost(p, T, t[1])
       + TestCosts(p, rows, t[2], Sub(rows, R, t[1], 0), T \cup {t[1]})
       + TestCosts(p, rows, t[3], Sub(rows, R, t[1], 1), T \cup {t[1]})

Huge == 10000000
ScoreOK(p, t, e) ==
  LET rows == e.rows
      n == Total(rows)
      v == e.score
  IN
  CASE p.task \in {"accuracy", "cost-complex-accuracy"} -> Near(v, n - Mistakes(p, rows, t), n, p.S, 2)
    [] p.task = "f1-score" ->
         LET fn == Cell(p, rows, t, LAMBDA r, l : IF l = 0 THEN r.s[2] ELSE 0)
             fp == Cell(p, rows, t, LAMBDA r, l : IF l = 1 THEN r.s[1] ELSE 0)
             tp == MapThenSumSet(LAMBDA i : rows[i].s[2], 1..Len(rows)) - fn
         IN 2 * tp + fp + fn = 0 \/ Near(v, 2 * tp, 2 * tp + fp + fn, p.S, 2)
    [] IsPareto(p) ->   \* accuracy, or 0 when the limit is exceeded
         LET q == [p EXCEPT !.rows = rows]
             g == Groups(q)
             u == TreePair(q, g, t, All(q))
         IN IF Fair(q, g, u) THEN Near(v, n - u[1], n, p.S, 2) ELSE Near(v, 0, 1, p.S, 2)
    [] p.task \in {"instance-cost-sensitive"} -> Near(v, Cell(p, rows, t, LAMBDA r, l : r.s[l + 1]), p.C, p.S, 2)
    [] p.task = "prescriptive-policy" -> Near(v, Cell(p, rows, t, LAMBDA r, l : r.o[l + 1]), n, p.S, 2)
    [] p.task = "cost-sensitive" ->
         LET mis == Cell(p, rows, t, LAMBDA r, l : MapThenSumSet(LAMBDA k : p.m[k][l + 1] * r.s[k], 1..p.w))
             tst == TestCosts(p, rows, t, 1..Len(rows), {})
         IN e.norm = 0 \/ Near(v, mis + tst, e.norm, p.S, e.slack)
    [] p.task \in {"regression", "cost-complex-regression"} ->
         The({Abs(v * n - ls) <= n * 3 + ls \div 5000 + 3 * (TNodes(t) + 1)
              : ls \in {MeanLoss(p, rows, t, All(p), 1..Len(rows))}})
    [] IsTable(p) ->     \* loss[i][j]: loss of row i in leaf j, at most Huge
         \/ \E i \in 1..Len(rows) : e.loss[i][LeafIx(t, rows[i].x)] >= Huge
         \/ The({Abs(v * n - ls) <= n * 3 + Abs(ls) \div 2000
              : ls \in {MapThenSumSet(LAMBDA i : e.loss[i][LeafIx(t, rows[i].x)], 1..Len(rows))}})

(* --- predictions --- *)
PredOK(p, t, e) ==
  /\ Len(e.out) = Len(e.xs)
  /\ \A i \in 1..Len(e.xs) :
       IF e.tab # <<>> THEN Abs(e.out[i] - e.tab[i][LeafIx(t, e.xs[i])]) <= 2 + Abs(e.out[i]) \div 20000
       ELSE IF IsReal(p) THEN Abs(e.out[i] - Route(t, e.xs[i])) <= 1 + Abs(e.out[i]) \div 50000
       ELSE e.out[i] = Route(t, e.xs[i])

(* --- a fit --- *)
FitClauses(p, tab, e) ==
  LET bound == e.ub >= 0 /\ ~IsPareto(p)
      within == Exists(p, tab, e.d, e.k) /\ (bound => Opt(tab, e.d, e.k) <= e.ub)
  IN
  IF e.res = "err" THEN {"crash"}
  ELSE IF e.res = "inf" THEN (IF within THEN {"feasible"} ELSE {})
  ELSE (IF Exists(p, tab, e.d, e.k) THEN {} ELSE {"feasible"})
       \cup (IF bound /\ ~within THEN {"bound"} ELSE {})
       \cup Structure(p, e.d, e.k, e)
       \cup (IF Structure(p, e.d, e.k, e) \cap {"wellformed"} # {} THEN {}
             ELSE (IF Labelled(p, e.tree) THEN {} ELSE {"label"})
                  \cup (IF Attains(p, tab, e.d, e.k, e.tree) THEN {} ELSE {"optimal"})
                  \cup (IF e.opt = 1 THEN {} ELSE {"unproved"})
                  \cup (IF e.hs = 0 \/ ScoreOK(p, e.tree, [rows |-> p.rows] @@ e) THEN {} ELSE {"score"})
                  \cup (IF QLenOK(e.tree, p.rows, e.ql) THEN {} ELSE {"qlen"}))

(* --- a solution listed besides the best one --- *)
OtherClauses(p, e) ==
  IF Structure(p, e.d, e.k, e) # {} THEN Structure(p, e.d, e.k, e)
  ELSE (IF Labelled(p, e.tree) THEN {} ELSE {"label"})
       \cup (IF ScoreOK(p, e.tree, [rows |-> p.rows] @@ e) THEN {} ELSE {"score"})

(* --- a fit during which the clock passed the time limit: it may fail or     *)
(* return any admissible tree, but may only call it optimal if it is          *)
FairTree(p, t) == LET g == Groups(p) IN Fair(p, g, TreePair(p, g, t, All(p)))
TimedClauses(p, tab, e) ==
  IF e.res = "err" THEN {"crash"}
  ELSE IF e.res = "inf" THEN {}
  ELSE IF Structure(p, e.d, e.k, e) # {} THEN Structure(p, e.d, e.k, e)
  ELSE (IF IsPareto(p) /\ p.task # "f1-score" /\ ~FairTree(p, e.tree) THEN {"unfair"} ELSE {})
       \cup (IF IsReal(p) \/ Labelled(p, e.tree) THEN {} ELSE {"label"})
       \cup (IF e.opt = 1 /\ ~Attains(p, tab, e.d, e.k, e.tree) THEN {"claimed"} ELSE {})
       \cup (IF e.hs = 0 \/ ScoreOK(p, e.tree, [rows |-> p.rows] @@ e) THEN {} ELSE {"score"})
       \cup (IF QLenOK(e.tree, p.rows, e.ql) THEN {} ELSE {"qlen"})
=============================================================================

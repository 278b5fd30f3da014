------------------------------ MODULE Binarize ------------------------------
(* Columns of raw values and the binary features made of them.                *)
(* A column is a record                                                       *)
(*   kind  "bin", "num" or "cat"      v    the training values (integers;     *)
(*   new   values seen later               categories are numbered)           *)
(*   n     the number of thresholds or categories allowed                     *)
(* A feature of a column is a record [t |-> T] with T a threshold in units of *)
(* 1/U of a value, [c |-> C] with C a set of categories, or [b |-> 1] for a   *)
(* column that is already binary.                                             *)
EXTENDS Judge, SequencesExt

U == 27720            \* a multiple of every denominator used below

Sat(f, v) == IF "t" \in DOMAIN f THEN v * U <= f.t
             ELSE IF "c" \in DOMAIN f THEN v \in f.c ELSE v = 1

Values(c) == {c.v[i] : i \in 1..Len(c.v)}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Ordered(s) == SortSeq(s, LAMBDA a, b : a < b)
SetMaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
SetMinOf(S) == CHOOSE m \in S : \A x \in S : x >= m

(* --- thresholds --- *)
Middles(c) == LET s == Sorted(Values(c)) IN {(s[i] + s[i + 1]) * (U \div 2) : i \in 1..(Len(s) - 1)}
Uniform(c) == LET lo == SetMinOf(Values(c))
                  hi == SetMaxOf(Values(c))
              IN {lo * U + (hi - lo) * (2 * i - 1) * (U \div (2 * c.n)) : i \in 1..c.n}
(* linear interpolation at the fractions j / (n + 1) of the ordered values *)
Quantile(c) == LET s == Ordered(c.v)
                   h(j) == (Len(s) - 1) * j
                   q(j) == h(j) \div (c.n + 1)
                   r(j) == h(j) % (c.n + 1)
               IN {s[q(j) + 1] * U + (IF r(j) = 0 THEN 0 ELSE (s[q(j) + 2] - s[q(j) + 1]) * r(j) * (U \div (c.n + 1))) : j \in 1..c.n}

(* --- thresholds of a tree grown best first on the one column --- *)
(* A leaf is an interval of ordered distinct values.  A split is worth        *)
(* G(left) + G(right) - G(both), where G is the sum of squared class counts   *)
(* (or the squared sum of targets) over the number of rows.                   *)
Rows(c, S) == {i \in 1..Len(c.v) : c.v[i] \in S}
Gn(c, y, cls, S) == IF cls THEN MapThenSumSet(LAMBDA k : Cardinality({i \in Rows(c, S) : y[i] = k})^2, {y[i] : i \in Rows(c, S)})
                    ELSE MapThenSumSet(LAMBDA i : y[i], Rows(c, S))^2
Pure(c, y, S) == Cardinality({y[i] : i \in Rows(c, S)}) <= 1
(* the worth of splitting S below v, as <<numerator, denominator>> *)
Worth(c, y, cls, S, v) ==
  LET A == {u \in S : u <= v}
      B == S \ A
      a == Cardinality(Rows(c, A))
      b == Cardinality(Rows(c, B))
  IN << Gn(c, y, cls, A) * b * (a + b) + Gn(c, y, cls, B) * a * (a + b) - Gn(c, y, cls, S) * a * b, a * b * (a + b) >>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Splits(c, y, cls, leaves) ==
  UNION {{[S |-> S, v |-> v, w |-> Worth(c, y, cls, S, v)] : v \in S \ {SetMaxOf(S)}} : S \in {X \in leaves : Cardinality(X) > 1 /\ ~Pure(c, y, X)}}
RECURSIVE Grown(_, _, _, _, _)
Grown(c, y, cls, leaves, k) ==     \* the possible sets of leaves after k more splits
  IF k = 0 THEN {leaves}
  ELSE LET sp == TLCEval(Splits(c, y, cls, leaves))
           best == {s \in sp : ~\E t \in sp : Less(s.w, t.w)}
       IN IF sp = {} THEN {leaves}
          ELSE UNION {Grown(c, y, cls, (leaves \ {s.S}) \cup {{u \in s.S : u <= s.v}, {u \in s.S : u > s.v}}, k - 1) : s \in best}
Cuts(c, leaves) == {LET lo == SetMaxOf(S)
                        hi == SetMinOf({u \in Values(c) : u > lo})
                    IN (lo + hi) * (U \div 2) : S \in {X \in leaves : SetMaxOf(X) # SetMaxOf(Values(c))}}
Grows(c, y, cls) == {Cuts(c, lv) : lv \in Grown(c, y, cls, {Values(c)}, c.n)}

Thresholds(c, strat, y, kinds) ==        \* the admissible sets of thresholds
  IF Cardinality(Values(c)) = 1 THEN {{}}
  ELSE IF strat = "tree" THEN UNION {Grows(c, y, cls) : cls \in kinds}
  ELSE IF Cardinality(Values(c)) <= c.n + 1 THEN {Middles(c)}
  ELSE IF strat = "uniform" THEN {Uniform(c)} ELSE {Quantile(c)}

(* --- categories --- *)
Count(c, v) == Cardinality(Rows(c, {v}))
Common(c, m) == {S \in kSubset(m, Values(c)) : \A u \in S : \A v \in Values(c) \ S : Count(c, u) >= Count(c, v)}
Singles(S) == {{v} : v \in S}
Categories(c) ==                  \* the admissible sets of sets of categories
  IF Cardinality(Values(c)) = 1 THEN {{}}
  ELSE IF Cardinality(Values(c)) = 2 THEN {Singles(Values(c))} \cup {{{v}} : v \in Values(c)}
  ELSE IF Cardinality(Values(c)) <= c.n THEN {Singles(Values(c))}
  ELSE IF c.n = 2 THEN UNION {{{S}, {Values(c) \ S}, {S, Values(c) \ S}} : S \in Common(c, 1)}
  ELSE {Singles(S) \cup {Values(c) \ S} : S \in Common(c, c.n - 1)}

(* --- the admissible sets of features of a column --- *)
Makings(c, strat, y, kinds) ==
  CASE c.kind = "bin" -> {{[b |-> 1]}}
    [] c.kind = "num" -> {{[t |-> t] : t \in T} : T \in Thresholds(c, strat, y, kinds)}
    [] c.kind = "cat" -> {{[c |-> C] : C \in D} : D \in Categories(c)}

(* thresholds are compared up to the rounding of their computation *)
CloseSets(A, B) == /\ Cardinality(A) = Cardinality(B)
                   /\ \A a \in A : \E b \in B : Abs(a - b) <= 2
                   /\ \A b \in B : \E a \in A : Abs(a - b) <= 2

(* --- a binarisation e: columns e.cols; recorded features e.out, each with   *)
(* its column (0 if it has no name that tells), predicate and bits            *)
(* --- *)
Bits(f, c) == [i \in 1..(Len(c.v) + Len(c.new)) |-> IF Sat(f, (c.v \o c.new)[i]) THEN 1 ELSE 0]
Kinds(e) == {IF k = 1 THEN TRUE ELSE FALSE : k \in {e.cls[i] : i \in 1..Len(e.cls)}}
Of(e, j) == {i \in 1..Len(e.out) : e.out[i].col = j}
Pred(o) == IF o.k = "t" THEN [t |-> o.t] ELSE IF o.k = "c" THEN [c |-> {o.c[i] : i \in 1..Len(o.c)}] ELSE [b |-> 1]
Named(e) == \A i \in 1..Len(e.out) : e.out[i].col > 0

ColumnOK(e, j) ==
  LET c == e.cols[j]
      R == {Pred(e.out[i]) : i \in Of(e, j)}
  IN \E F \in Makings(c, e.strat, e.y, Kinds(e)) :
       IF c.kind = "num" THEN (\A f \in R : "t" \in DOMAIN f) /\ CloseSets({f.t : f \in R}, {f.t : f \in F}) ELSE R = F
EncodeOK(e) == \A i \in 1..Len(e.out) : e.out[i].bits = Bits(Pred(e.out[i]), e.cols[e.out[i].col])

(* without names: the columns of bits are those of some choice.  Thresholds   *)
(* that fall on a value may be rounded to either side of it.                  *)
RECURSIVE Products(_)
Products(s) == IF s = <<>> THEN {{}} ELSE UNION {{a \cup b : a \in s[1]} : b \in Products(Tail(s))}
Nudge(c, F) == IF c.kind # "num" THEN {F}
               ELSE LET ties == {f \in F : f.t % U = 0 /\ (f.t \div U) \in Values(c) \cup {c.new[i] : i \in 1..Len(c.new)}}
                    IN {(F \ D) \cup {[t |-> f.t - 1] : f \in D} : D \in SUBSET ties}
ColBits(e, j) == UNION {{{Bits(f, e.cols[j]) : f \in G} : G \in Nudge(e.cols[j], F)} : F \in Makings(e.cols[j], e.strat, e.y, Kinds(e))}
PlainOK(e) == {e.out[i].bits : i \in 1..Len(e.out)} \in Products([j \in 1..Len(e.cols) |-> ColBits(e, j)])

BinClauses(e) ==
  IF e.res = "err" THEN {"crash"}
  ELSE IF Named(e)
  THEN {e.cols[j].kind : j \in {i \in 1..Len(e.cols) : ~ColumnOK(e, i)}} \cup (IF EncodeOK(e) THEN {} ELSE {"encode"})
  ELSE IF PlainOK(e) THEN {} ELSE {"columns"}

(* --- a fit on raw columns e.cols: its training predictions are those of an  *)
(* optimal tree over some choice of features, and rows with equal features    *)
(* get equal predictions                                                      *)
RECURSIVE Features(_, _)
Features(e, j) ==     \* sets of pairs <<column, feature>>
  IF j > Len(e.cols) THEN {{}}
  ELSE UNION {{{<<j, f>> : f \in F} \cup R : F \in Makings(e.cols[j], e.strat, e.y, Kinds(e))} : R \in Features(e, j + 1)}
RowBits(e, fs, i) == TLCEval([j \in 1..Len(fs) |-> IF Sat(fs[j][2], (e.cols[fs[j][1]].v \o e.cols[fs[j][1]].new)[i]) THEN 1 ELSE 0])
(* the sensitive column, if any, comes first *)
Listed(e, R) == LET first == {x \in R : x[1] = e.sens} IN SetToSeq(first) \o SetToSeq(R \ first)
BinProblem(e, fs) ==
  [task |-> e.task, F |-> Len(fs), ml |-> e.ml, w |-> e.w, K |-> 60, rel |-> 0, tol |-> 0] @@
  [rows |-> TLCEval([i \in 1..Len(e.y) |-> [x |-> RowBits(e, fs, i), n |-> 1, s |-> e.s[i]]]),
   ln |-> e.ln, lq |-> e.lq]

(* rows of equal prediction *)
Block(e, o) == {i \in 1..Len(e.y) : e.out[i] = o}
OutVals(e) == {e.out[i] : i \in 1..Len(e.y)}
Achieved(e, p) ==
  IF p.task = "regression" THEN MapThenSumSet(LAMBDA o : SSE(p, Agg(p, Block(e, o))), OutVals(e))
  ELSE Cardinality({i \in 1..Len(e.y) : e.out[i] # e.y[i]})
BestOK(e, p) ==
  IF p.task = "group-fairness"
  THEN LET g == Groups(p)
           pos(a, b) == Cardinality({i \in 1..Len(e.y) : e.out[i] = 1 /\ p.rows[i].s[a] + p.rows[i].s[b] = 1})
           u == <<Achieved(e, p), pos(1, 2) * g[2] - pos(3, 4) * g[1]>>
       IN Fair(p, g, u) /\ The({\A v \in FairPairs(p, At(Row(tab, e.d), 2^e.d - 1)) : u[1] <= v[1] : tab \in {Table(p, e.d)}})
  ELSE The({Abs(Achieved(e, p) - Opt(tab, e.d, 2^e.d - 1)) <= 4 : tab \in {OptTable(p, e.d)}})
SameOK(e, fs) == \A i \in 1..Len(e.out) : \A k \in 1..(i - 1) : RowBits(e, fs, i) = RowBits(e, fs, k) => e.out[i] = e.out[k]
RawOK(e, R) == The({BestOK(e, BinProblem(e, fs)) /\ SameOK(e, fs) : fs \in {Listed(e, R)}})
RawClauses(e) ==
  IF e.res = "err" THEN {"crash"}
  ELSE IF \E R \in Features(e, 1) : RawOK(e, R) THEN {} ELSE {"rawfit"}
=============================================================================

----------------------------- MODULE TuneTrace -----------------------------
(* Hyper-tuning.  Every phase evaluates candidate settings on folds of the    *)
(* data; a setting with the best average is chosen; the final tree is optimal *)
(* for all data under the chosen setting.  The state is the grid of observed  *)
(* validation scores of the running phase.                                    *)
EXTENDS HoldOut, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, run, grid, bad
vars == <<l, run, grid, bad>>

Init == l = 1 /\ run = [on |-> FALSE] /\ grid = <<>> /\ bad = <<>>
Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])

(* a run: the direction of its scores, their scale, and what is known of them *)
Start(e) == /\ e.ev = "tune"
            /\ run' = [on |-> TRUE, dir |-> e.dir, C |-> 0, R |-> 0, S |-> e.S, p |-> e.p, perfect |-> e.perfect, fold |-> e.fold, one |-> e.one]
            /\ grid' = <<>>
            /\ bad' = bad

(* scores of classification folds of m rows are multiples of 1/m *)
Multiple(s, m, S) == \E c \in 0..m : Abs(s * m - c * S) <= 2 * m
Fresh(C, R) == [c \in 1..C |-> [r \in 1..R |-> <<>>]]
Score(e) == /\ e.ev = "score"
            /\ run' = [run EXCEPT !.C = e.C, !.R = e.R]
            /\ grid' = LET g == IF grid = <<>> THEN Fresh(e.C, e.R) ELSE grid IN [g EXCEPT ![e.c][e.r] = <<e.s, 1>>]
            /\ Note(e, IF run.fold = 0 \/ Multiple(e.s, run.fold, run.S) THEN {} ELSE {"foldscore"})

(* larger settings of a split repeat the score once the tree has its maximum size *)
Copied(v) == IF v = <<>> THEN v ELSE <<v[1], 0>>
Skip(e) == /\ e.ev = "skip"
           /\ grid' = IF grid = <<>> THEN grid ELSE [c \in 1..run.C |-> IF c < e.c THEN grid[c] ELSE [grid[c] EXCEPT ![e.r] = Copied(grid[e.c - 1][e.r])]]
           /\ Note(e, {})
           /\ UNCHANGED run

Complete == grid # <<>> /\ \A c \in 1..run.C : \A r \in 1..run.R : grid[c][r] # <<>>
Sum(c) == MapThenSumSet(LAMBDA r : grid[c][r][1], 1..run.R)
Better(c, d) == run.dir * (Sum(c) - Sum(d)) > run.R + 1
(* rows of the largest class, if it is the largest in every training part *)
Major(p) == LET a == Agg(p, All(p)).s
                m == SeqMax(a)
            IN IF Cardinality({i \in 1..Len(a) : a[i] >= m - run.fold}) = 1 THEN m ELSE 0
ZeroOK == LET p == run.p
              m == Major(p)
          IN m = 0 \/ Abs(Sum(1) * run.fold - m * run.S) <= run.R * run.fold
Best(e) == /\ e.ev = "best"
           /\ Note(e, IF ~Complete THEN {}
                      ELSE (IF \E d \in {e.c[i] : i \in 1..Len(e.c)} : \A c \in 1..run.C : ~Better(c, d) THEN {} ELSE {"notbest"})
                           \cup (IF run.fold = 0 \/ e.zero = 0 \/ ZeroOK THEN {} ELSE {"folds"})
                           \cup (IF run.one = 0 \/ e.lims = <<>> \/ Honest(run.p, run.S, e.lims, grid) THEN {} ELSE {"peeked"})
                           \cup (IF run.perfect < 0 \/ e.last = 0 THEN {}
                                 ELSE IF \E c \in 1..run.C : Abs(Sum(c) - run.R * run.perfect) <= run.R + 1 THEN {} ELSE {"imperfect"}))
           /\ grid' = <<>>
           /\ UNCHANGED run

(* the final fit, judged for the chosen setting *)
Final(e) == /\ e.ev = "final"
            /\ Note(e, (IF e.d <= e.D /\ e.k <= e.K /\ e.kept = 1 THEN {} ELSE {"setting"})
                       \cup The({FitClauses(e.p, tab, e) : tab \in {Table(e.p, e.d)}}))
            /\ run' = [on |-> FALSE]
            /\ grid' = <<>>
Failed(e) == /\ e.ev = "failed"
             /\ Note(e, {"crash"})
             /\ UNCHANGED <<run, grid>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Start(e) \/ Score(e) \/ Skip(e) \/ Best(e) \/ Final(e) \/ Failed(e)
Spec == Init /\ [][Next]_vars
Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

------------------------------ MODULE FitTrace ------------------------------
(* Validates a recorded session of fits, predictions and evaluations against  *)
(* the optimum and the meaning of trees.  The state is the training problem,  *)
(* its table of optima and the tree of the last successful fit; each recorded *)
(* event is one step.  A step whose clauses fail is recorded in `bad` and the *)
(* session continues, so one run judges the whole trace.                      *)
EXTENDS Curves, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prob, tab, tree, bad
vars == <<l, prob, tab, tree, bad>>

NoTree == <<>>
Init == l = 1 /\ prob = [task |-> "none"] /\ tab = <<>> /\ tree = NoTree /\ bad = <<>>

Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])

Problem(e) == /\ e.ev = "problem"
              /\ prob' = e.p
              /\ tab' = Table(e.p, e.D)
              /\ tree' = NoTree
              /\ bad' = bad
Fit(e) == /\ e.ev = "fit"
          /\ tree' = IF e.res = "ok" THEN e.tree ELSE NoTree
          /\ Note(e, FitClauses(prob, tab, e))
          /\ UNCHANGED <<prob, tab>>
(* a further solution of a printed front: not claimed best, but its figures are true *)
Other(e) == /\ e.ev = "other"
            /\ tree' = e.tree
            /\ Note(e, OtherClauses(prob, e))
            /\ UNCHANGED <<prob, tab>>
Timed(e) == /\ e.ev = "timed"
            /\ tree' = IF e.res = "ok" THEN e.tree ELSE NoTree
            /\ Note(e, TimedClauses(prob, tab, e))
            /\ UNCHANGED <<prob, tab>>
Pred(e) == /\ e.ev = "pred"
           /\ tree # NoTree
           /\ Note(e, IF e.res = "err" THEN {"crash"} ELSE IF PredOK(prob, tree, e) THEN {} ELSE {"pred"})
           /\ UNCHANGED <<prob, tab, tree>>
Eval(e) == /\ e.ev = "eval"
           /\ tree # NoTree
           /\ Note(e, IF e.res = "err" THEN {"crash"}
                      ELSE (IF e.hs = 0 \/ ScoreOK(prob, tree, e) THEN {} ELSE {"evalscore"})
                           \cup (IF QLenOK(tree, e.rows, e.ql) THEN {} ELSE {"evalqlen"}))
           /\ UNCHANGED <<prob, tab, tree>>
Curve(e) == /\ e.ev = "curves"
            /\ tree # NoTree
            /\ Note(e, IF e.res = "err" THEN {"crash"} ELSE IF CurvesOK(tree, e) THEN {} ELSE {"curve"})
            /\ UNCHANGED <<prob, tab, tree>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Problem(e) \/ Fit(e) \/ Other(e) \/ Timed(e) \/ Pred(e) \/ Eval(e) \/ Curve(e)
Spec == Init /\ [][Next]_vars

Done == l > Len(Trace)
(* the verdict file is written once the whole trace is consumed *)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

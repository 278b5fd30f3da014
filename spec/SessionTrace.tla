---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded sessions: every recorded call is one step of Session,   *)
(* whose prediction of the outcome must accept what was seen, and the answers *)
(* must be those of the current fit.  Events of one session start with        *)
(* "begin", which brings the training problems.                               *)
EXTENDS Judge, Json, IOUtils
CONSTANTS Ests, Good, Configs

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, fit, unsure, out,    \* the session
          probs, tabs,                 \* training problems by name, tables of optima
          tree,                        \* recorded tree of the current fit of each estimator
          memo,                        \* trees by data and configuration
          bad
S == INSTANCE Session
vars == <<l, cfg, fit, unsure, out, probs, tabs, tree, memo, bad>>

NoTree == <<>>
NoTrees == [e \in Ests |-> NoTree]
Init == /\ l = 1 /\ S!SInit
        /\ probs = <<>> /\ tabs = <<>> /\ tree = NoTrees /\ memo = {} /\ bad = <<>>

Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])
Lifecycle(e) == IF S!Accepts(out', e.seen) THEN {} ELSE IF e.seen = "crash" THEN {"crash"} ELSE {"lifecycle"}

Begin(e) == /\ e.ev = "begin"
            /\ cfg' = [x \in Ests |-> 1] /\ fit' = [x \in Ests |-> S!None] /\ unsure' = {} /\ out' = "none"
            /\ probs' = e.probs
            /\ tabs' = TLCEval([d \in DOMAIN e.probs |-> Table(e.probs[d], e.D)])
            /\ tree' = NoTrees /\ memo' = {}
            /\ bad' = bad
Died(e) == /\ e.ev = "died"
           /\ Note(e, {"crash"})
           /\ UNCHANGED <<cfg, fit, unsure, out, probs, tabs, tree, memo>>

Fit(e) ==
  /\ e.ev = "fit"
  /\ S!Fit(e.e, e.ds)
  /\ tree' = [tree EXCEPT ![e.e] = IF e.seen = "ok" /\ out' = "ok" THEN e.tree ELSE NoTree]
  /\ memo' = IF e.seen = "ok" /\ out' = "ok" THEN memo \cup {[d |-> e.ds, c |-> e.c, t |-> e.tree]} ELSE memo
  /\ Note(e, Lifecycle(e)
             \cup (IF out' = "ok" /\ e.seen = "ok" THEN FitClauses(probs[e.ds], tabs[e.ds], e) ELSE {})
             \cup (IF out' = "ok" /\ e.seen = "ok" /\ \E m \in memo : m.d = e.ds /\ m.c = e.c /\ m.t # e.tree THEN {"repro"} ELSE {}))
  /\ UNCHANGED <<probs, tabs>>

Answer(e) ==
  LET t == tree[e.e]
      p == probs[fit[e.e].d]
  IN CASE e.ev = "pred" -> IF PredOK(p, t, e) THEN {} ELSE {"pred"}
       [] e.ev = "eval" -> (IF e.hs = 0 \/ ScoreOK(p, t, e) THEN {} ELSE {"evalscore"})
                           \cup (IF QLenOK(t, e.rows, e.ql) THEN {} ELSE {"evalqlen"})
       [] e.ev = "info" -> IF e.tree = t /\ e.lea = TNodes(t) + 1 /\ e.dep = TDepth(t) THEN {} ELSE {"info"}
       [] OTHER -> {}

Use(e) ==
  /\ e.ev \in S!Uses
  /\ S!Use(e.e, e.ev)
  /\ Note(e, Lifecycle(e) \cup (IF e.seen = "ok" /\ out' = "ok" /\ tree[e.e] # NoTree THEN Answer(e) ELSE {}))
  /\ UNCHANGED <<probs, tabs, tree, memo>>

Set(e) == /\ e.ev = "set"
          /\ S!SetParams(e.e, e.c)
          /\ Note(e, Lifecycle(e))
          /\ UNCHANGED <<probs, tabs, tree, memo>>
Clone(e) == /\ e.ev = "clone"
            /\ S!Clone(e.of, e.e)
            /\ tree' = [tree EXCEPT ![e.e] = NoTree]
            /\ Note(e, Lifecycle(e))
            /\ UNCHANGED <<probs, tabs, memo>>

(* the caller's arrays are compared with copies taken at the beginning *)
Same(e) == /\ e.ev = "same"
           /\ Note(e, IF e.same = 1 THEN {} ELSE {"mutated"})
           /\ UNCHANGED <<cfg, fit, unsure, out, probs, tabs, tree, memo>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Begin(e) \/ Died(e) \/ Fit(e) \/ Use(e) \/ Set(e) \/ Clone(e) \/ Same(e)
Spec == Init /\ [][Next]_vars

Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

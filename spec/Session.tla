------------------------------- MODULE Session -------------------------------
(* The life of a few estimators.  An estimator has a configuration and at     *)
(* most one current fit.  Data sets are of three kinds: some are fitted       *)
(* successfully, one has no tree within the limits, one is malformed.         *)
(* Configuration 0 has a parameter out of its range: it may be set, but a fit *)
(* rejects it.                                                                *)
(* `out` is what the caller observes of the last call.  The model is checked  *)
(* exhaustively (MCSession) and its random behaviours are replayed on the     *)
(* implementation (GenSession).                                               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Ests, Good, Configs
Data == Good \cup {"inf", "bad"}
None == [d |-> "none", c |-> 0]

VARIABLES cfg,      \* configuration of each estimator
          fit,      \* its current fit: data and configuration at that time, or None
          unsure,   \* estimators whose last fit call raised an exception
          out       \* observation of the last call
svars == <<cfg, fit, unsure, out>>

SInit == /\ cfg = [e \in Ests |-> 1]
         /\ fit = [e \in Ests |-> None]
         /\ unsure = {}
         /\ out = "none"

Fitted(e) == fit[e] # None

Fit(e, d) ==
  /\ UNCHANGED cfg
  /\ CASE cfg[e] = 0 \/ d = "bad" ->
                       /\ fit' = [fit EXCEPT ![e] = None]
                       /\ unsure' = unsure \cup {e}
                       /\ out' = "exception"
       [] cfg[e] # 0 /\ d \in Good -> /\ fit' = [fit EXCEPT ![e] = [d |-> d, c |-> cfg[e]]]
                        /\ unsure' = unsure \ {e}
                        /\ out' = "ok"
       [] cfg[e] # 0 /\ d = "inf" ->
                       /\ fit' = [fit EXCEPT ![e] = None]
                       /\ unsure' = unsure \ {e}
                       /\ out' = "infeasible"

(* predictions, scores and exports need a current fit; after a fit call that  *)
(* raised, both an answer of the previous fit and the error are acceptable    *)
Use(e, kind) ==
  /\ out' = IF kind \in {"badpred", "badeval"} THEN "exception"   \* malformed arguments
            ELSE IF Fitted(e) THEN "ok" ELSE IF e \in unsure THEN "any" ELSE "notfitted"
  /\ UNCHANGED <<cfg, fit, unsure>>

SetParams(e, c) ==
  /\ c # cfg[e]
  /\ cfg' = [cfg EXCEPT ![e] = c]
  /\ out' = "none"
  /\ UNCHANGED <<fit, unsure>>

(* a fresh copy with the same parameters replaces the estimator *)
Clone(e, e2) ==
  /\ e # e2
  /\ cfg' = [cfg EXCEPT ![e2] = cfg[e]]
  /\ fit' = [fit EXCEPT ![e2] = None]
  /\ unsure' = unsure \ {e2}
  /\ out' = "none"

Uses == {"pred", "eval", "info", "badpred", "badeval"}

(* what the implementation may be seen to do: the not-fitted error is one of  *)
(* the exceptions                                                             *)
Accepts(o, seen) ==
  CASE o = "any" -> seen \in {"ok", "exception", "notfitted"}
    [] o = "none" -> seen = "ok"
    [] o = "exception" -> seen \in {"exception", "notfitted"}
    [] OTHER -> seen = o
=============================================================================

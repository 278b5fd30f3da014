------------------------------ MODULE MCSession ------------------------------
(* Exhaustive exploration of Session with a ghost that remembers the last fit *)
(* call of every estimator.                                                   *)
EXTENDS Session
VARIABLE last      \* [Ests -> [d, c]] of the last fit call, None if there was none
Init == SInit /\ last = [e \in Ests |-> None]
Next ==
  \/ \E e \in Ests, d \in Data : Fit(e, d) /\ last' = [last EXCEPT ![e] = [d |-> d, c |-> cfg[e]]]
  \/ \E e \in Ests, k \in Uses : Use(e, k) /\ UNCHANGED last
  \/ \E e \in Ests, c \in Configs : SetParams(e, c) /\ UNCHANGED last
  \/ \E e, e2 \in Ests : Clone(e, e2) /\ last' = [last EXCEPT ![e2] = None]
Spec == Init /\ [][Next]_<<svars, last>>

(* an answer always comes from the last fit call, which succeeded *)
Current == \A e \in Ests : Fitted(e) => fit[e] = last[e] /\ last[e].d \in Good /\ last[e].c # 0
Unfitted == \A e \in Ests : ~Fitted(e) => last[e].d \notin Good \/ last[e].c = 0
(* calls on one estimator never change another *)
Isolated == [][Cardinality({e \in Ests : fit'[e] # fit[e]}) <= 1]_<<svars, last>>
(* only fitting or replacing an estimator changes its fit *)
Stable == [][\A e \in Ests : fit'[e] # fit[e] => out' \in {"ok", "infeasible", "exception", "none"}]_<<svars, last>>
=============================================================================

------------------------------ MODULE GenSession ------------------------------
(* Behaviours of Session for replay: run TLC in simulation mode; every        *)
(* behaviour of Steps calls is printed as JSON.                               *)
EXTENDS Session, TLC, Json, IOUtils
VARIABLE hist
Steps == atoi(IOEnv.STEPS)
Log(r) == hist' = Append(hist, r @@ [out |-> out'])
Init == SInit /\ hist = <<>>
Next ==
  /\ Len(hist) < Steps
  /\ \/ \E e \in Ests, d \in Data : Fit(e, d) /\ Log([op |-> "fit", e |-> e, d |-> d, c |-> cfg[e]])
     \/ \E e \in Ests, d \in Good : Fit(e, d) /\ Log([op |-> "fit", e |-> e, d |-> d, c |-> cfg[e]])
     \/ \E e \in Ests, k \in Uses : Use(e, k) /\ Log([op |-> k, e |-> e, d |-> fit[e].d])
     \/ \E e \in Ests, c \in Configs : SetParams(e, c) /\ Log([op |-> "set", e |-> e, c |-> c])
     \/ \E e, e2 \in Ests : Clone(e, e2) /\ Log([op |-> "clone", e |-> e2, of |-> e])
Spec == Init /\ [][Next]_<<svars, hist>>
Emit == Len(hist) = Steps => PrintT("SESSION " \o ToJson(hist))
=============================================================================

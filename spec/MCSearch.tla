------------------------------ MODULE MCSearch ------------------------------
(* Search on all small data sets.  A behaviour starts with some data, given   *)
(* by the counts of the two labels per feature pattern, and a leaf size.      *)
EXTENDS Search
CONSTANTS TASK, SIZES, DATA
P2 == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
P3 == << <<0, 0, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>> >>      \* features 0 and 1 agree
One == {<< <<1, 0>>, <<0, 2>>, <<0, 1>>, <<1, 0>> >>}
Same2 == {<< <<1, 0>>, <<0, 0>>, <<0, 0>>, <<1, 1>> >>}
Every == {k \in [1..4 -> {<<1, 0>>, <<0, 2>>, <<0, 0>>}] : \E i \in 1..4 : k[i] # <<0, 0>>}
Many == {k \in [1..4 -> {<<2, 0>>, <<1, 1>>, <<0, 1>>}] : TRUE}
Twins == {<< <<2, 0>>, <<0, 2>>, <<1, 0>>, <<1, 0>> >>}
P(k, ml) ==
  LET pat == IF DATA = Twins THEN P3 ELSE P2 IN
  [task |-> TASK, F |-> Len(pat[1]),
   rows |-> SelectSeq([i \in 1..4 |-> [x |-> pat[i], n |-> k[i][1] + k[i][2], s |-> k[i]]], LAMBDA r : r.n > 0),
   w |-> 2, nl |-> 2, ml |-> ml, tol |-> 0, rel |-> 0, K |-> 60, q |-> 2, bc |-> 1, m |-> << <<0, 3>>, <<2, 0>> >>,
   (* the test of feature 2 is free after feature 0, but not after feature 1 *)
   fc |-> [f \in 1..Len(pat[1]) |-> [cost |-> 1, disc |-> 0, base |-> f, group |-> IF f = 2 THEN 1 ELSE 0]], ln |-> 1, lq |-> 4]
Init == /\ \E k \in DATA, ml \in SIZES : prob = P(k, ml)
        /\ true = Stack(prob, 0, TLCEval(Level0(prob)))
        /\ info = Info
        /\ lb = [e \in Everything |-> 0] /\ best = [e \in Everything |-> Inf] /\ opt = [e \in Everything |-> -1]
        /\ expired = FALSE
Spec == Init /\ [][Next]_vars
(* for simulation: the clock expires late *)
Long == Init /\ [][Next /\ (expired' => TLCGet("level") > 25)]_vars
=============================================================================

----------------------------- MODULE PartTrace -----------------------------
(* Runs on a random selection and a random partition of the instances of a    *)
(* file.  Which instances were drawn is not reported: the run is accepted if  *)
(* some selection of the requested size and some partition of it into         *)
(* disjoint training and test sets of the requested sizes explain it: the     *)
(* tree is optimal for the training set, and both scores are those of the     *)
(* tree on the two sets.                                                      *)
EXTENDS Judge, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])

Only(p, S) == LET q == SetToSeq(S) IN [p EXCEPT !.rows = [j \in 1..Len(q) |-> p.rows[q[j]]]]
(* stratified: the share of every label (of all instances, otherwise) in the  *)
(* test set is the requested one up to rounding                               *)
Sized(e, S, T) == \A y \in {e.label[i] : i \in S} :
                    Abs(e.den * Cardinality({i \in T : e.label[i] = y}) - e.num * Cardinality({i \in S : e.label[i] = y})) < e.den
Drawn(e, S) == {T \in SUBSET S : Sized(e, S, T)}
ScoresFit(e, p, A, B) ==
  /\ A # {}
  /\ Structure(Only(p, A), e.d, e.k, e) = {}
  /\ ScoreOK(Only(p, A), e.tree, [rows |-> Only(p, A).rows] @@ e)
  /\ IF B = {} THEN TRUE
     ELSE /\ e.tnan = 0
          /\ ScoreOK(Only(p, A), e.tree, [rows |-> Only(p, B).rows, score |-> e.tscore] @@ e)
          /\ QLenOK(e.tree, Only(p, B).rows, e.tql)
Optimal(e, p, A) == The({FitClauses(q, Table(q, e.d), e) \ {"qlen"} = {} : q \in {Only(p, A)}})
Explained(e) ==
  \E S \in {U \in SUBSET (1..Len(e.p.rows)) : Cardinality(U) = e.want} :
     \E T \in Drawn(e, S) :
        LET A == S \ T
            B == IF e.same = 1 THEN S ELSE T
        IN ScoresFit(e, e.p, A, B) /\ Optimal(e, e.p, A)

(* nothing to learn from *)
NoneLeft(e) == \E S \in {U \in SUBSET (1..Len(e.p.rows)) : Cardinality(U) = e.want} : \E T \in Drawn(e, S) : T = S

Part(e) == /\ e.ev = "part"
           /\ Note(e, IF e.res = "err" THEN {"crash"}
                      ELSE IF e.res = "inf" THEN (IF NoneLeft(e) THEN {} ELSE {"feasible"})
                      ELSE IF Structure(e.p, e.d, e.k, e) # {} THEN Structure(e.p, e.d, e.k, e)
                      ELSE IF Explained(e) THEN {} ELSE {"part"})
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Part(e)
Spec == Init /\ [][Next]_vars
Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

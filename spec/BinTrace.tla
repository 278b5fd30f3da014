------------------------------ MODULE BinTrace ------------------------------
(* Validates recorded binarisations and fits on raw columns.                  *)
EXTENDS Binarize, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \/ e.ev = "bin" /\ Note(e, BinClauses(e))
                                 \/ e.ev = "raw" /\ Note(e, RawClauses(e))
                                 \/ e.ev = "reject" /\ Note(e, IF e.exc = 1 THEN {} ELSE {"accepted"})  \* sizes that do not fit the columns
Spec == Init /\ [][Next]_vars
Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

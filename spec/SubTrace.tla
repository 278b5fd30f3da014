------------------------------ MODULE SubTrace ------------------------------
(* Validates the answers one solver gives to a sequence of subproblem and     *)
(* lower-bound queries.  The state holds the optima of all branches: a query  *)
(* (branch, depth, nodes, upper bound) is answered from it, whatever was      *)
(* asked before.                                                              *)
EXTENDS Judge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prob, tabs, bad
vars == <<l, prob, tabs, bad>>

(* tables of the levels j..D, and from them of all levels *)
RECURSIVE Stack(_, _, _, _)
Stack(p, j, D, L) ==
  IF j = D THEN <<IF IsPareto(p) THEN FLeaves(p, <<0, 0>>, L) ELSE Leaves(p, L)>>
  ELSE The({The({<<lev>> \o up : lev \in {IF IsPareto(p) THEN FLevel(p, <<0, 0>>, L, up[1], D - j) ELSE Level(p, L, up[1], D - j)}})
            : up \in {The({Stack(p, j + 1, D, L1) : L1 \in {NextLevel(p, L)}})}})

(* Values of all trees of a subproblem of the accuracy task with at most k    *)
(* tests in depth d; only for small data                                      *)
RECURSIVE Reach(_, _, _, _, _)
Reach(p, S, T, d, k) ==
  The({IF a.n < p.ml THEN {}
       ELSE {a.n - a.s[i] : i \in 1..p.w}
            \cup (IF d = 0 \/ k = 0 THEN {}
                  ELSE UNION {UNION {{x + y : x \in Reach(p, Sub(p.rows, S, f, 0), T \cup {f}, d - 1, Min2(i, 2^(d - 1) - 1)),
                                              y \in Reach(p, Sub(p.rows, S, f, 1), T \cup {f}, d - 1, Min2(k - 1 - i, 2^(d - 1) - 1))}
                                     : i \in 0..(k - 1)} : f \in MayTest(p) \ T})
       : a \in {Agg(p, S)}})

Rows(p, path) == {i \in All(p) : \A s \in 1..Len(path) : p.rows[i].x[path[s][1] + 1] = path[s][2]}
RECURSIVE Code(_, _)
Code(b, path) == IF path = <<>> THEN b ELSE Code(Assign(b, Head(path)[1], Head(path)[2]), Tail(path))
Known(e) == At(tabs[Len(e.path) + 1][Code(Root(prob), e.path)][e.d + 1], e.k)
Below(u, v) == u[1] <= v[1] /\ u[2] <= v[2]

Answer(p, e, o) ==
  LET t == Tol(p, o) IN
     (IF o < Inf /\ (e.hasub = 0 \/ o + 2 * t < e.ub) /\ (e.none = 1 \/ Abs(e.v - o) > t) THEN {"answer"} ELSE {})
  \cup (IF e.none = 0 /\ e.v < o - t THEN {"low"} ELSE {})
  \cup (IF e.none = 0 /\ p.task = "accuracy" /\ e.v > o
           /\ Weight(p.rows, Rows(p, e.path)) <= 12
           /\ e.v \notin Reach(p, Rows(p, e.path), {e.path[s][1] : s \in 1..Len(e.path)}, e.d, e.k) THEN {"unattained"} ELSE {})

(* at the root only the pairs that may be best matter *)
Answers(p, e, front) ==
  LET pos == Agg(p, All(p)).s[2]
      got == {e.vals[i] : i \in 1..Len(e.vals)}
      ubs == {e.ubs[i] : i \in 1..Len(e.ubs)}
      open == {u \in front : ~\E w \in ubs : Below(w, u)}
  IN (IF IF e.path # <<>> THEN \A u \in open : u \in got
         ELSE ubs # {} \/ front = {} \/ \E v \in got : \A u \in front : F1Geq(p, pos, v, u) THEN {} ELSE {"answer"})
     \cup (IF \A v \in got : \E u \in front : Below(u, v) THEN {} ELSE {"low"})

Bounds(p, e, front) ==
  LET pos == Agg(p, All(p)).s[2]
      got == {e.vals[i] : i \in 1..Len(e.vals)}
  IN IF e.path # <<>> THEN \A u \in front : \E w \in got : Below(w, u)
     ELSE front = {} \/ \E w \in got : \A u \in front : F1Geq(p, pos, w, u)

Init == l = 1 /\ prob = [task |-> "none"] /\ tabs = <<>> /\ bad = <<>>
Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])
Problem(e) == /\ e.ev = "problem"
              /\ prob' = e.p
              /\ tabs' = Stack(e.p, 0, e.D, TLCEval(Level0(e.p)))
              /\ bad' = bad
Query(e) == /\ e.ev = "query"
            /\ Note(e, IF Weight(prob.rows, Rows(prob, e.path)) # e.size THEN {"rows"}
                       ELSE The({IF IsPareto(prob) THEN Answers(prob, e, o) ELSE Answer(prob, e, o) : o \in {Known(e)}}))
            /\ UNCHANGED <<prob, tabs>>
Bound(e) == /\ e.ev = "bound"
            /\ Note(e, IF Weight(prob.rows, Rows(prob, e.path)) # e.size THEN {"rows"}
                       ELSE IF The({IF IsPareto(prob) THEN Bounds(prob, e, o) ELSE e.v <= o + Tol(prob, o) : o \in {Known(e)}}) THEN {} ELSE {"lowerbound"})
            /\ UNCHANGED <<prob, tabs>>
Fail(e) == e.ev = "fail" /\ Note(e, {"crash"}) /\ UNCHANGED <<prob, tabs>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Problem(e) \/ Query(e) \/ Bound(e) \/ Fail(e)
Spec == Init /\ [][Next]_vars

Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

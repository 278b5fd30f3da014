---------------------------- MODULE ExportTrace ----------------------------
(* What a fitted tree looks like when printed, exported as a graph and used   *)
(* for class probabilities.  A predicate or label is a sequence of strings    *)
(* and of numbers, the latter in units of 1/S and compared up to rounding.    *)
EXTENDS Judge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tree, names, labels, bad
vars == <<l, tree, names, labels, bad>>

Init == l = 1 /\ tree = <<>> /\ names = <<>> /\ labels = <<>> /\ bad = <<>>
Note(e, C) == bad' = IF C = {} THEN bad ELSE Append(bad, [id |-> e.id, clauses |-> C])

(* texts: words w and numbers v *)
SameText(a, b) == /\ a.w = b.w
                  /\ Len(a.v) = Len(b.v)
                  /\ \A i \in 1..Len(a.v) : Abs(a.v[i] - b.v[i]) <= 2 + Abs(a.v[i]) \div 10000

(* The lines of a printed tree: [ind, kind, text], kind 0: predicate not      *)
(* satisfied, 1: satisfied, 2: label.  Leaves hold the number of their label. *)
RECURSIVE Lines(_, _)
Lines(t, d) ==
  IF IsLeaf(t) THEN << [ind |-> d, kind |-> 2, text |-> labels[t[1]]] >>
  ELSE << [ind |-> d, kind |-> 0, text |-> names[t[1] + 1]] >> \o Lines(t[2], d + 1)
       \o << [ind |-> d, kind |-> 1, text |-> names[t[1] + 1]] >> \o Lines(t[3], d + 1)
PrintOK(ls) == /\ Len(ls) = 2 * TNodes(tree) + TNodes(tree) + 1
               /\ The({\A i \in 1..Len(ls) : ls[i].ind = want[i].ind /\ ls[i].kind = want[i].kind /\ SameText(ls[i].text, want[i].text)
                       : want \in {Lines(tree, 0)}})

(* A graph: nodes [id, text] and edges [a, b, yes]; it is the tree hanging    *)
(* from its one node without incoming edge                                    *)
Kids(e, a, yes) == {e.edges[i].b : i \in {j \in 1..Len(e.edges) : e.edges[j].a = a /\ e.edges[j].yes = yes}}
TextOf(e, a) == {e.nodes[i].text : i \in {j \in 1..Len(e.nodes) : e.nodes[j].id = a}}
RECURSIVE Hangs(_, _, _)
Hangs(e, a, t) ==
  /\ Cardinality(TextOf(e, a)) = 1
  /\ IF IsLeaf(t) THEN /\ Kids(e, a, 0) = {} /\ Kids(e, a, 1) = {}
                       /\ \A x \in TextOf(e, a) : SameText(x, labels[t[1]])
     ELSE /\ \A x \in TextOf(e, a) : SameText(x, names[t[1] + 1])
          /\ Cardinality(Kids(e, a, 0)) = 1 /\ Cardinality(Kids(e, a, 1)) = 1
          /\ \A b \in Kids(e, a, 0) : Hangs(e, b, t[2])
          /\ \A b \in Kids(e, a, 1) : Hangs(e, b, t[3])
Roots(e) == {e.nodes[i].id : i \in 1..Len(e.nodes)} \ {e.edges[i].b : i \in 1..Len(e.edges)}
DotOK(e) == /\ Len(e.nodes) = 2 * TNodes(tree) + 1
            /\ Len(e.edges) = 2 * TNodes(tree)
            /\ Cardinality(Roots(e)) = 1
            /\ \A a \in Roots(e) : Hangs(e, a, tree)

(* Branching nodes may tell the number of instances that reach them, the      *)
(* label with the least average costs there, and those costs in 1/1000        *)
CostSum(e, S, k) == MapThenSumSet(LAMBDA i : e.rows[i].s[k], S)
StatOK(e, st, S) ==
  \/ st.n = -1
  \/ /\ st.n = Weight(e.rows, S)
     /\ \E k \in 1..Len(e.lnames) :
          /\ SameText(st.best, e.lnames[k])
          /\ \A j \in 1..Len(e.lnames) : CostSum(e, S, k) <= CostSum(e, S, j)
          /\ Near(st.cost, CostSum(e, S, k), st.n, 1000, 2)
RECURSIVE StatsOK(_, _, _, _)
StatsOK(e, a, t, S) ==
  \/ IsLeaf(t)
  \/ /\ \A i \in {j \in 1..Len(e.nodes) : e.nodes[j].id = a} : StatOK(e, e.nodes[i].stat, S)
     /\ \A v \in {0, 1} : \A b \in Kids(e, a, v) : StatsOK(e, b, t[v + 2], Sub(e.rows, S, t[1], v))

(* the tree as a string *)
TextOK(e) == /\ e.rest = ""
             /\ e.tree = tree
             /\ Len(e.labels) = Len(labels)
             /\ \A i \in 1..Len(labels) : SameText(e.labels[i], labels[i])

(* class probabilities: frequencies among the training rows of the leaf;      *)
(* classes not seen in training may be left out at the end                    *)
Mates(rows, x) == {i \in 1..Len(rows) : LeafIx(tree, rows[i].x) = LeafIx(tree, x)}
ProbaOK(e) == /\ Len(e.out) = Len(e.xs)
              /\ \A i \in 1..Len(e.xs) :
                   The({/\ \A k \in 1..Len(e.out[i]) : k > e.w => e.out[i][k] = 0
                        /\ \A k \in 1..e.w : Near(IF k <= Len(e.out[i]) THEN e.out[i][k] ELSE 0, MapThenSumSet(LAMBDA j : e.rows[j].s[k], M), Weight(e.rows, M), 10000, 1)
                        : M \in {Mates(e.rows, e.xs[i])}})

Fitted(e) == /\ e.ev = "fitted"
             /\ tree' = e.tree /\ names' = e.names /\ labels' = e.labels
             /\ bad' = bad
Printed(e) == /\ e.ev = "print"
            /\ Note(e, IF e.res = "err" THEN {"crash"} ELSE IF PrintOK(e.lines) THEN {} ELSE {"print"})
            /\ UNCHANGED <<tree, names, labels>>
Text(e) == /\ e.ev = "text"
           /\ Note(e, IF TextOK(e) THEN {} ELSE {"text"})
           /\ UNCHANGED <<tree, names, labels>>
Dot(e) == /\ e.ev = "dot"
          /\ Note(e, IF e.res = "err" THEN {"crash"} ELSE IF ~DotOK(e) THEN {"dot"}
                  ELSE IF e.rows = <<>> \/ \A a \in Roots(e) : StatsOK(e, a, tree, 1..Len(e.rows)) THEN {} ELSE {"stats"})
          /\ UNCHANGED <<tree, names, labels>>
Proba(e) == /\ e.ev = "proba"
            /\ Note(e, IF e.res = "err" THEN {"crash"} ELSE IF ProbaOK(e) THEN {} ELSE {"proba"})
            /\ UNCHANGED <<tree, names, labels>>
Failed(e) == /\ e.ev = "failed"
             /\ Note(e, {"crash"})
             /\ UNCHANGED <<tree, names, labels>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Fitted(e) \/ Printed(e) \/ Text(e) \/ Dot(e) \/ Proba(e) \/ Failed(e)
Spec == Init /\ [][Next]_vars
Done == l > Len(Trace)
Report == Done => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
=============================================================================

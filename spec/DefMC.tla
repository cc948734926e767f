-------------------------------- MODULE DefMC --------------------------------
(* Definitions are trees of nodes in a heap (a definition holds fields, which *)
(* hold fields).  With deep copies the heap refines independent values: what  *)
(* each slot reaches is its value, and no two slots reach a common node.      *)
(* Every transition is printed as a history to replay (Emit).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Vals, Deep
Nodes == 1..(2 * Cardinality(Slots) + 2)
VARIABLES heap, root, val, hist
vars == <<heap, root, val, hist>>
None == [v |-> 0, c |-> 0]
Reach(r, h, s) == IF r[s] = 0 THEN {} ELSE {r[s], h[r[s]].c}
Live(s) == root[s] # 0
Free(r) == Nodes \ UNION {Reach(r, heap, s) : s \in Slots}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Alloc(s, a, b) == LET r0 == [root EXCEPT ![s] = 0]
                      n == Least(Free(r0))
                      m == Least(Free(r0) \ {n})
                  IN heap' = [heap EXCEPT ![n] = [v |-> a, c |-> m], ![m] = [v |-> b, c |-> 0]] /\ root' = [root EXCEPT ![s] = n]
Log(e) == hist' = Append(hist, e)
Init == heap = [n \in Nodes |-> None] /\ root = [s \in Slots |-> 0] /\ val = [s \in Slots |-> <<>>] /\ hist = <<>>
New(s) == ~Live(s) /\ Alloc(s, 0, 0) /\ val' = [val EXCEPT ![s] = <<0, 0>>] /\ Log([op |-> "new", s |-> s])
Cp(d, s) == /\ Live(s) /\ val' = [val EXCEPT ![d] = val[s]] /\ Log([op |-> "cp", d |-> d, s |-> s])
            /\ IF d = s THEN UNCHANGED <<heap, root>>
               ELSE IF Deep THEN Alloc(d, heap[root[s]].v, heap[heap[root[s]].c].v)
               ELSE LET r0 == [root EXCEPT ![d] = 0]
                        n == Least(Free(r0))
                    IN heap' = [heap EXCEPT ![n] = heap[root[s]]] /\ root' = [root EXCEPT ![d] = n]
Mv(d, s) == /\ Live(s) /\ d # s /\ root' = [root EXCEPT ![d] = root[s], ![s] = 0] /\ UNCHANGED heap
            /\ val' = [val EXCEPT ![d] = val[s], ![s] = <<>>] /\ Log([op |-> "mv", d |-> d, s |-> s])
Del(s) == Live(s) /\ root' = [root EXCEPT ![s] = 0] /\ UNCHANGED heap /\ val' = [val EXCEPT ![s] = <<>>] /\ Log([op |-> "del", s |-> s])
Set(s, k, x) == /\ Live(s) /\ val[s][k] # x /\ val' = [val EXCEPT ![s][k] = x] /\ UNCHANGED root /\ Log([op |-> "set", s |-> s, k |-> k])
                /\ heap' = IF k = 1 THEN [heap EXCEPT ![root[s]].v = x] ELSE [heap EXCEPT ![heap[root[s]].c].v = x]
Next == \E s \in Slots : \/ New(s) \/ Del(s)
                         \/ \E d \in Slots : Cp(d, s) \/ Mv(d, s)
                         \/ \E k \in 1..2 : \E x \in Vals : Set(s, k, x)
Spec == Init /\ [][Next]_vars
View == <<heap, root, val>>
Refines == \A s \in Slots : IF val[s] = <<>> THEN ~Live(s) ELSE Live(s) /\ heap[root[s]].v = val[s][1] /\ heap[heap[root[s]].c].v = val[s][2]
Disjoint == \A s, d \in Slots : s # d => Reach(root, heap, s) \cap Reach(root, heap, d) = {}
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================

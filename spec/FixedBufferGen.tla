--------------------------- MODULE FixedBufferGen ---------------------------
(* One implementation test per transition of the concrete layout's graph:   *)
(* for every reachable (head, size) and every next operation, the shortest  *)
(* history ending in that operation is printed and replayed.                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Cap
VARIABLES head, sz, hist, nxt
vars == <<head, sz, hist, nxt>>
Min2(a, b) == IF a < b THEN a ELSE b
Init == head = 0 /\ sz = 0 /\ hist = <<>> /\ nxt = 0
Write(n) ==
  /\ hist' = Append(hist, [op |-> "w", d |-> [i \in 1..n |-> (nxt + i) % 200], null |-> FALSE])
  /\ nxt' = nxt + n
  /\ IF n > 0 /\ n <= Cap - sz
     THEN sz' = sz + n /\ head' = IF head + sz + n > 2 * Cap THEN 0 ELSE head
     ELSE UNCHANGED <<head, sz>>
Erase(n) ==
  /\ hist' = Append(hist, [op |-> "e", n |-> n])
  /\ UNCHANGED nxt
  /\ LET k == Min2(n, sz) IN IF k = 0 THEN UNCHANGED <<head, sz>>
                             ELSE sz' = sz - k /\ head' = IF sz = k THEN 0 ELSE head + k
Next == (\E n \in 0..(Cap + 1) : Write(n)) \/ (\E n \in 0..(Cap + 1) : Erase(n))
Spec == Init /\ [][Next]_vars
View == <<head, sz>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================

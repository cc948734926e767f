----------------------------- MODULE RangeLockMC -----------------------------
(* What the rules for lock times in RangeSpec are good for: a receiver tracks  *)
(* one signal, loses lock now and then, and states its lock time in messages   *)
(* as far as they can. The lock times made of them are never longer than the   *)
(* true ones, unless lock was lost and the messages do not show it, and exact  *)
(* but for the time between two messages as soon as they can be.               *)
EXTENDS RangeSpec
CONSTANTS GAPS, MAX2, LAST
\* t: time; lock: time since lock was acquired; d2, d4: what is kept; o2, o4: the lock times made
\* sure2, sure4: no loss of lock has gone unnoticed; err2, err4: how much too short they can be; -1: not known
VARIABLES t, lock, seen, d2, d4, o2, o4, sure2, sure4, err2, err4
vars == <<t, lock, seen, d2, d4, o2, o4, sure2, sure4, err2, err4>>
Start == [w |-> 1, ms |-> WeekMs - 7]                                          \* the week ends meanwhile
After(x, d) == IF x.ms + d >= WeekMs THEN [w |-> x.w + 1, ms |-> (x.ms + d) - WeekMs] ELSE [x EXCEPT !.ms = @ + d]
TOP == 3
LowMC(i) == <<0, 2, 5, 10, 100>>[i + 1]
Bucket(x) == CHOOSE i \in 0..TOP : x >= LowMC(i) /\ (i = TOP \/ x < LowMC(i + 1))
Bits2(x) == IF x > MAX2 THEN MAX2 ELSE x
Init == /\ t = Start /\ lock \in 0..12 /\ seen = FALSE /\ d2 = <<>> /\ d4 = <<>> /\ o2 = 0 /\ o4 = 0
        /\ sure2 = TRUE /\ sure4 = TRUE /\ err2 = 0 - 1 /\ err4 = 0 - 1
\* g later, a message; lock was lost and found again r before, or (r = -1) not
Message(g, r) ==
  LET u == After(t, g)
      k == IF r >= 0 THEN r ELSE lock + g
      n2 == Lock2(d2, u, Bits2(k), MAX2)
      n4 == Lock4(d4, u, Bucket(k), TOP, LowMC)
      kept2 == d2 # <<>> /\ n2.s = d2
      kept4 == d4 # <<>> /\ n4.s = d4
  IN /\ Since(u, Start) <= LAST
     /\ t' = u /\ lock' = k /\ seen' = TRUE
     /\ d2' = n2.s /\ o2' = n2.ms /\ d4' = n4.s /\ o4' = n4.ms
     /\ sure2' = IF kept2 THEN sure2 /\ r < 0 ELSE TRUE
     /\ sure4' = IF kept4 THEN sure4 /\ r < 0 ELSE TRUE
     /\ err2' = IF n2.s = <<>> THEN 0 ELSE IF kept2 THEN err2 ELSE IF seen THEN g ELSE 0 - 1
     /\ err4' = IF kept4 THEN err4
                ELSE IF ~n4.s.abs THEN 0 - 1                                                    \* no change of the range was seen
                ELSE IF n4.s.bits = 0 THEN (IF d4 # <<>> /\ d4.abs THEN 0 - 1 ELSE LowMC(1))
                ELSE IF d4 # <<>> /\ n4.s.bits # d4.bits THEN g ELSE 0 - 1
Next == \E g \in GAPS : \E r \in {0 - 1} \cup 0..g : Message(g, r)
Spec == Init /\ [][Next]_vars
Exact2 == seen /\ lock < MAX2 => o2 = lock
AtLeast2 == seen => o2 >= Bits2(lock)
NotLonger == seen => /\ sure2 => o2 <= lock
                     /\ sure4 => o4 <= lock
Near == seen => /\ (sure2 /\ err2 >= 0) => o2 >= lock - err2
                /\ (sure4 /\ err4 >= 0) => o4 >= lock - err4
\* while lock is kept, lock times grow as time does, or jump up
Grow == [][\A g \in GAPS : Message(g, 0 - 1) => /\ (d2 # <<>> => o2' >= o2)
                                                /\ (d4 # <<>> /\ sure4 => o4' >= o4)]_vars
\* never negative, whatever happens
Sane == o2 >= 0 /\ o4 >= 0
=============================================================================

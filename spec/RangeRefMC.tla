------------------------------ MODULE RangeRefMC ------------------------------
(* What the rules for reference blocks in RangeSpec are good for: a receiver   *)
(* measures two signals; on the whole second it states the measurements and    *)
(* numbers them, in between it states differences to those of the second.      *)
(* Messages are lost, signals come and go, another receiver's messages (the    *)
(* other source) lie between, the decompressor is reset. What is made of a     *)
(* message is what was measured, as long as fewer seconds in a row are lost    *)
(* than there are numbers.                                                     *)
EXTENDS RangeSpec
CONSTANTS SIGNALS, IDS, SECOND, TRUTHS, LAST
\* tick: time; rid, base: number and values of the receiver's last reference (<<source>> -> ...); refs: the decompressor's
\* lost: seconds since a reference of the source got through; out: what was made of the last message, want: what was measured
VARIABLES tick, sent, rid, base, refs, lost, out, want
vars == <<tick, sent, rid, base, refs, lost, out, want>>
SRC == {0, 1}
Init == /\ tick = 0 /\ sent = {} /\ rid = [s \in SRC |-> 0] /\ base = [s \in SRC |-> <<>>] /\ refs = <<>> /\ lost = [s \in SRC |-> 0] /\ out = <<>> /\ want = <<>>
Whole == tick % SECOND = 0
\* one message of source s with signals S measured as v; got: whether it arrives
Send(s, S, v, got) ==
  /\ tick < LAST /\ s \notin sent /\ sent' = sent \cup {s}
  /\ want' = v
  /\ IF Whole
     THEN LET id == (rid[s] + 1) % IDS IN
          /\ rid' = [rid EXCEPT ![s] = id]
          /\ base' = [base EXCEPT ![s] = [x \in S |-> v[x]]]
          /\ lost' = [lost EXCEPT ![s] = IF got THEN 0 ELSE IF @ < IDS THEN @ + 1 ELSE @]
          /\ refs' = IF got THEN FoldLeft(LAMBDA f, x : PutRef(f, <<x, s>>, id, 0, v[x]), KeptRefs(refs, TRUE, s), SetToSeq(S)) ELSE refs
          /\ out' = IF got THEN [x \in S |-> v[x]] ELSE <<>>
     ELSE LET D == {x \in S : x \in DOMAIN base[s]}                            \* only signals the receiver has a reference of
              kept == KeptRefs(refs, FALSE, s)
              U == {x \in D : UsableRef(Get(kept, <<x, s>>), rid[s])} IN
          /\ UNCHANGED <<rid, base, lost>>
          /\ refs' = IF got THEN kept ELSE refs
          /\ out' = IF got THEN [x \in U |-> Get(kept, <<x, s>>)[1].k + (v[x] - base[s][x])] ELSE <<>>
  /\ UNCHANGED tick
Tick == tick < LAST /\ tick' = tick + 1 /\ sent' = {} /\ out' = <<>> /\ want' = <<>> /\ UNCHANGED <<rid, base, refs, lost>>
Reset == refs' = <<>> /\ out' = <<>> /\ want' = <<>> /\ UNCHANGED <<tick, sent, rid, base, lost>>
Next == \/ \E s \in SRC, S \in SUBSET SIGNALS, got \in BOOLEAN : \E v \in [SIGNALS -> TRUTHS] : Send(s, S, v, got)
        \/ Tick \/ Reset
Spec == Init /\ [][Next]_vars
Few == \A s \in SRC : lost[s] < IDS
Right == Few => \A x \in DOMAIN out : out[x] = want[x]
=============================================================================

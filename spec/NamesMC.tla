------------------------------- MODULE NamesMC -------------------------------
(* Packing is invertible and every name the database produces leads back to   *)
(* the identifier it was produced from.                                       *)
EXTENDS Names, TLC
CONSTANT Dummy
VARIABLE st
Defs == <<[id |-> 42, name |-> Bytes("BESTPOS")], [id |-> 65535, name |-> Bytes("A_B")], [id |-> 7, name |-> Bytes("X")]>>
Init == st \in [id : {0, 7, 42, 65535, 9}, sib : 0..31, fmt : 0..3, resp : 0..1]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
PackOk == Unword(Word(st)) = st /\ Pack(st.id, st.sib, st.fmt, st.resp) = st
Known == \E i \in 1..3 : Defs[i].id = st.id
\* a response is named in ASCII only, and the reserved format has no name of its own
RoundTrip == Known => LET back == NameToId(Defs, IdToName(Defs, st)) IN
               back = [st EXCEPT !.fmt = IF st.resp = 1 THEN F_ASC ELSE IF @ = 3 THEN F_ABB ELSE @]
Unknown == ~Known => NameToId(Defs, IdToName(Defs, st)) = Zero
=============================================================================

-------------------------------- MODULE DbMC --------------------------------
(* The indexes the implementation keeps beside its lists (maintained         *)
(* incrementally) always answer what the lists define.  Every transition is  *)
(* printed as a history to replay (Emit).                                    *)
EXTENDS Db, TLC, Json, Integers
CONSTANTS Ids, Names, EIds, ENames, MaxM, MaxE
VARIABLES ms, es, iN, iI, eN, eI, hist
vars == <<ms, es, iN, iI, eN, eI, hist>>
None == <<>>
Msgs == [id : Ids, name : Names]
Enums == [id : EIds, name : ENames]
Put(f, k, v) == [x \in DOMAIN f |-> IF x = k THEN v ELSE f[x]]
\* full rebuild of the message indexes, in list order
Rebuild(s, K(_), Dom) == [k \in Dom |-> LastWith(s, K, k)]
\* removal: the removed entry's keys are dropped, and handed to what is left under the same key
Drop1(f, s2, K(_), k) == Put(f, k, LastWith(s2, K, k))
Init == /\ ms = <<>> /\ es = <<>> /\ hist = <<>>
        /\ iN = [k \in Names |-> None] /\ iI = [k \in Ids |-> None] /\ eN = [k \in ENames |-> None] /\ eI = [k \in EIds |-> None]
AddMsgs(l) == /\ ms' = AppendMsgs(ms, l) /\ Len(ms') <= MaxM
              /\ iN' = Rebuild(ms', Name, Names) /\ iI' = Rebuild(ms', Id, Ids) /\ UNCHANGED <<es, eN, eI>>
              /\ hist' = Append(hist, [op |-> "am", l |-> l])
RmMsg(id) == /\ UNCHANGED <<es, eN, eI>>
             /\ LET m == LET I == {i \in 1..Len(ms) : ms[i].id = id} IN IF I = {} THEN None ELSE <<ms[CHOOSE i \in I : \A j \in I : i <= j]>> IN
                IF m = None THEN UNCHANGED <<ms, iN, iI>>
                ELSE /\ ms' = RemoveMsg(ms, id)
                     /\ iN' = Drop1(iN, ms', Name, m[1].name) /\ iI' = Drop1(iI, ms', Id, id)
             /\ hist' = Append(hist, [op |-> "rm", id |-> id])
AddEnum(e) == /\ UNCHANGED <<ms, iN, iI>>
              /\ es' = AppendEnums(es, <<e>>) /\ Len(es') <= MaxE
              /\ LET old == EnumByName(es, e.name)
                     s2 == RemoveEnum(es, e.name)
                     n2 == IF old = None THEN eN ELSE Drop1(eN, s2, Name, e.name)
                     i2 == IF old = None THEN eI ELSE Drop1(eI, s2, Id, old[1].id)
                 IN eN' = Put(n2, e.name, <<e>>) /\ eI' = Put(i2, e.id, <<e>>)
              /\ hist' = Append(hist, [op |-> "ae", l |-> <<e>>])
RmEnum(n) == /\ UNCHANGED <<ms, iN, iI>>
             /\ LET old == EnumByName(es, n) IN
                IF old = None THEN UNCHANGED <<es, eN, eI>>
                ELSE es' = RemoveEnum(es, n) /\ eN' = Drop1(eN, es', Name, n) /\ eI' = Drop1(eI, es', Id, old[1].id)
             /\ hist' = Append(hist, [op |-> "re", name |-> n])
Next == \/ \E m \in Msgs : AddMsgs(<<m>>)
        \/ \E m, k \in Msgs : m.id # k.id /\ AddMsgs(<<m, k>>)
        \/ \E id \in Ids : RmMsg(id)
        \/ \E e \in Enums : AddEnum(e)
        \/ \E n \in ENames : RmEnum(n)
Spec == Init /\ [][Next]_vars
View == <<ms, es, iN, iI, eN, eI>>
IndexOk == /\ \A k \in Names : iN[k] = MsgByName(ms, k)
           /\ \A k \in Ids : iI[k] = MsgById(ms, k)
           /\ \A k \in ENames : eN[k] = EnumByName(es, k)
           /\ \A k \in EIds : eI[k] = EnumById(es, k)
OnePerId == \A i, j \in 1..Len(ms) : i # j => ms[i].id # ms[j].id
OnePerEnumName == \A i, j \in 1..Len(es) : i # j => es[i].name # es[j].name
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================

--------------------------------- MODULE Db ---------------------------------
(* The message database: two ordered collections, one definition per message *)
(* id and per enumeration name; the latest addition wins in every look-up.   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

\* last element of s satisfying P(key) = k, <<>> if none
LastWith(s, F(_), k) == LET I == {i \in 1..Len(s) : F(s[i]) = k} IN IF I = {} THEN <<>> ELSE <<s[CHOOSE i \in I : \A j \in I : j <= i]>>
DropFirst(s, F(_), k) == LET I == {i \in 1..Len(s) : F(s[i]) = k} IN
                         IF I = {} THEN s ELSE LET p == CHOOSE i \in I : \A j \in I : i <= j IN RemoveAt(s, p)
Id(x) == x.id
Name(x) == x.name

RemoveMsg(ms, id) == DropFirst(ms, Id, id)
RemoveEnum(es, name) == DropFirst(es, Name, name)
AppendMsgs(ms, new) == FoldLeft(LAMBDA acc, m : Append(RemoveMsg(acc, m.id), m), ms, new)
AppendEnums(es, new) == FoldLeft(LAMBDA acc, e : Append(RemoveEnum(acc, e.name), e), es, new)
MsgById(ms, id) == LastWith(ms, Id, id)
MsgByName(ms, n) == LastWith(ms, Name, n)
EnumById(es, i) == LastWith(es, Id, i)
EnumByName(es, n) == LastWith(es, Name, n)
=============================================================================

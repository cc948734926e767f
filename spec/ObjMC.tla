-------------------------------- MODULE ObjMC --------------------------------
(* What the rules of ObjSpec amount to, for given field lists: fields do not   *)
(* share storage. Whatever was set before, a field that is set holds what it   *)
(* was set to, every other field what it held; what is refused changes         *)
(* nothing; and an object only set through its definitions stays sound.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, o, n
vars == <<c, o, n>>
MInfos(i) == Cases[c].infos[i].fields
MSub(i, j) == Cases[c].infos[i].sub[j]
INSTANCE ObjSpec WITH Infos <- MInfos, SubInfo <- MSub
DEPTH == 3
Fields == 1..Len(MInfos(1))
Elems(ty) == LET z == TySize(ty) IN {Zeros(z), IF ty = "b" THEN <<1>> ELSE [x \in 1..z |-> 200 + x]}
Rows(j) == LET i == MSub(1, j)
               e == New(i)
           IN {Comp(<<>>), Comp(<<e, e>>)} \cup (IF NVar(i) = 0 THEN {Flat([i |-> i, b |-> [x \in 1..NFixed(i) |-> 0]])} ELSE {})
\* what is tried on field j: mostly what suits it
Vals(j) == LET f == MInfos(1)[j]
               ty == CType(f)
           IN CASE f.t = "STRING" -> {Str(<<>>), Str(<<65, 66>>)}
                [] f.t = "FIELD_ARRAY" -> Rows(j)
                [] f.t = "VARIABLE_LENGTH_ARRAY" -> {Vec(Stored(ty), <<>>)} \cup {Vec(Stored(ty), <<x, x>>) : x \in Elems(Stored(ty))}
                [] f.t = "FIXED_LENGTH_ARRAY" -> {[Slot EXCEPT !.k = "buf", !.v = [y \in 1..f.al + d |-> x]] : x \in Elems(ty), d \in {0, 1}}
                [] OTHER -> {[Slot EXCEPT !.k = "one", !.b = x] : x \in Elems(ty)}
Tries == UNION {{[j |-> j, at |-> 0 - 1, v |-> v] : v \in Vals(j) \cup {Str(<<1>>), Comp(<<>>)}} : j \in Fields} \cup
         UNION {{[j |-> j, at |-> at, v |-> [Slot EXCEPT !.k = "one", !.b = x]] : at \in 0..5, x \in Elems(CType(MInfos(1)[j]))} : j \in {x \in Fields : CType(MInfos(1)[x]) # ""}}
After(x) == IF x.at < 0 THEN PutField(o, 1, x.j, x.v) ELSE PutElem(o, 1, x.j, x.at, CType(MInfos(1)[x.j]), x.v.b)
\* all there is to read of field j
All(p, j) == LET f == MInfos(1)[j]
                 s == p.var[Pos(1, j) + 1]
             IN IF f.t = "FIXED_LENGTH_ARRAY" THEN [y \in 1..f.al |-> Get(p, 1, j, CType(f), "one", y - 1)]
                ELSE IF IsFixed(f) THEN Get(p, 1, j, CType(f), "one", 0) ELSE <<s>>
Init == /\ c \in 1..Len(Cases) /\ n = 0
        /\ o = New(1)
Next == \E x \in Tries : After(x).ok = TRUE /\ n < DEPTH /\ o' = After(x).o /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* a STRING may be given elements and an array characters: not refused, but no longer sound
Suits(x) == LET f == MInfos(1)[x.j] IN
            CASE f.t = "STRING" -> x.v.k = "str" [] f.t = "VARIABLE_LENGTH_ARRAY" -> x.v.k # "str" [] OTHER -> TRUE
Framed == \A x \in Tries :
            LET r == After(x) IN
            IF ~r.ok THEN r.o = o
            ELSE /\ \A j \in Fields : j # x.j => All(r.o, j) = All(o, j)
                 /\ Suits(x) /\ Sound(o) => Sound(r.o)
                 /\ LET f == MInfos(1)[x.j]
                        got == All(r.o, x.j)
                    IN CASE x.at >= 0 /\ f.t = "FIXED_LENGTH_ARRAY" -> got = [All(o, x.j) EXCEPT ![x.at + 1] = <<As(CType(f), x.v.b)>>]
                         [] x.at >= 0 /\ f.t = "VARIABLE_LENGTH_ARRAY" -> Get(r.o, 1, x.j, CType(f), "one", x.at) = <<As(CType(f), x.v.b)>> /\ Len(got[1].v) = Len(All(o, x.j)[1].v)
                         [] x.v.k = "buf" -> \A y \in 1..Len(x.v.v) : got[y] = <<As(CType(f), x.v.v[y])>>
                         [] x.v.k = "one" /\ f.t # "FIXED_LENGTH_ARRAY" -> got = <<As(CType(f), x.v.b)>>
                         [] OTHER -> TRUE
Sizes == Sound(o) => \A j \in Fields : LET w == Written(o, j) IN w = <<0 - 1>> \/ Len(w) = Size(o, j)
=============================================================================

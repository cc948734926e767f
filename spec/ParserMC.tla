------------------------------ MODULE ParserMC ------------------------------
(* The parser on a toy alphabet: a message of kind k is the bytes k, k+10;    *)
(* other bytes are junk.  All streams of at most Items items, written in all  *)
(* chunkings, read at all times.                                              *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json
CONSTANT Items
Good == 1  Bad == 2  NoDef == 3  Resp == 4  Out == 5      \* decodable; not decodable; no definition; abbreviated response; filtered out
Kinds == {Good, Bad, NoDef, Resp, Out}
J == 0      \* a byte of junk
Cut == 6    \* the first byte of a message only
Bytes(it) == CASE it = J -> <<0>> [] it = Cut -> <<Good>> [] OTHER -> <<it, it + 10>>
Concat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
VARIABLES items, s, w, pend, out, unk, abr, gone, cnt, chunks
vars == <<items, s, w, pend, out, unk, abr, gone, cnt, chunks>>
Start(p) == IF p = <<>> THEN "none" ELSE IF p[1] \notin Kinds THEN "junk" ELSE IF Len(p) = 1 THEN "more" ELSE IF p[2] = p[1] + 10 THEN "ok" ELSE "junk"
RECURSIVE JunkLen(_)
JunkLen(p) == IF Start(p) = "junk" THEN 1 + JunkLen(Drop(p, 1)) ELSE 0
\* what one message becomes: nothing, or something handed out
Fate(k) == CASE k = Resp /\ abr -> "skip" [] k = Resp -> "full" [] k = Out -> "skip" [] k = NoDef -> "nodef" [] k = Bad -> IF unk THEN "unknown" ELSE "skip" [] OTHER -> "full"
Counted(k) == k # Resp
\* reading the whole of p: what is handed out (neighbouring pieces of junk joined)
Push(o, x) == IF o # <<>> /\ x.k = "junk" /\ o[Len(o)].k = "junk" THEN [o EXCEPT ![Len(o)].b = @ \o x.b] ELSE Append(o, x)
RECURSIVE All(_, _)
All(p, o) == CASE Start(p) \in {"none", "more"} -> o
               [] Start(p) = "junk" -> All(Drop(p, 1), IF unk THEN Push(o, [k |-> "junk", b |-> SubSeq(p, 1, 1)]) ELSE o)
               [] OTHER -> All(Drop(p, 2), IF Fate(p[1]) = "skip" THEN o ELSE Append(o, [k |-> Fate(p[1]), b |-> SubSeq(p, 1, 2)]))
Init == /\ items \in UNION {[1..n -> Kinds \cup {J, Cut}] : n \in 1..Items}
        /\ s = Concat([i \in 1..Len(items) |-> Bytes(items[i])])
        /\ w = 0 /\ pend = <<>> /\ out = <<>> /\ unk \in BOOLEAN /\ abr \in BOOLEAN /\ gone = <<>> /\ cnt = 0 /\ chunks = <<>>
Write == /\ w < Len(s)
         /\ \E n \in 1..Len(s) - w : w' = w + n /\ pend' = pend \o SubSeq(s, w + 1, w + n) /\ chunks' = Append(chunks, n)
         /\ UNCHANGED <<items, s, out, unk, abr, gone, cnt>>
Take(n, o) == pend' = Drop(pend, n) /\ gone' = gone \o SubSeq(pend, 1, n) /\ out' = o /\ UNCHANGED <<items, s, w, unk, abr, chunks>>
\* one step of a read; what is passed over leads to the next step
Read == CASE Start(pend) = "junk" -> \E n \in 1..JunkLen(pend) : Take(n, IF unk THEN Push(out, [k |-> "junk", b |-> SubSeq(pend, 1, n)]) ELSE out) /\ cnt' = cnt
          [] Start(pend) = "ok" -> /\ Take(2, IF Fate(pend[1]) = "skip" THEN out ELSE Append(out, [k |-> Fate(pend[1]), b |-> SubSeq(pend, 1, 2)]))
                                   /\ cnt' = cnt + IF Counted(pend[1]) THEN 1 ELSE 0
          [] OTHER -> FALSE
Idle == w = Len(s) /\ Start(pend) \in {"none", "more"} /\ UNCHANGED vars
Next == Write \/ Read \/ Idle
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* no byte is lost, made up or reordered
Conserved == gone \o pend = SubSeq(s, 1, w)
\* however the stream is cut, it reads the same
Same == Start(pend) \in {"none", "more"} => out = All(SubSeq(s, 1, w), <<>>)
\* with unknown bytes asked for, only what is filtered out or ignored is missing
Handed == Concat([i \in 1..Len(out) |-> out[i].b])
Complete == unk /\ ~abr /\ (\A i \in 1..Len(items) : items[i] # Out) => Handed = gone
NothingElse == \A i \in 1..Len(out) : out[i].k = "junk" => unk
Counts == cnt = Len(SelectSeq([i \in 1..Len(gone) |-> IF gone[i] > 10 /\ i > 1 /\ gone[i - 1] = gone[i] - 10 /\ Counted(gone[i - 1]) THEN 1 ELSE 0], LAMBDA x : x = 1))
\* every plan: the items, where they are cut, the settings
Plan == [items |-> items, chunks |-> chunks, unk |-> unk, abr |-> abr]
Emit == (w = Len(s) /\ gone = <<>>) => PrintT("@@" \o ToJson(Plan))
=============================================================================

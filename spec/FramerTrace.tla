---------------------------- MODULE FramerTrace ----------------------------
(* Validates recorded histories of a framer (one dialect) or of the framer  *)
(* manager (several) against FrameSpec.  The only state a framer may have   *)
(* is the bytes it was given and has not handed out yet.                    *)
EXTENDS FrameSpec, FrameReal, Json, IOUtils, Integers

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, pend, opt
vars == <<tr, l, pend, opt>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
Dialects == {T.dialects[x] : x \in 1..Len(T.dialects)}
Manager == T.mgr
Cap == T.cap
Init == tr \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ opt = [json |-> FALSE, payload |-> FALSE, unk |-> TRUE]
IsEvent(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

C(d, i) == Classify(d, opt.json, pend, i)
Start == [d \in Dialects |-> C(d, 1)]

\* what a complete frame c is handed out as
IsBin(c) == c.fmt \in {F_BINARY, F_SHORT_BINARY, F_PROPRIETARY}
HdrOf(c) == IF c.fmt = F_SHORT_BINARY THEN ShortHdr ELSE BinHdr
Payload(c) == opt.payload /\ IsBin(c) /\ ~Manager
OutLen(c) == IF Payload(c) THEN c.len - HdrOf(c) - BinCrc ELSE c.len
OutBytes(c) == IF Payload(c) THEN SubSeq(pend, HdrOf(c) + 1, c.len - BinCrc) ELSE Take(pend, c.len)

\* the length a binary candidate announces (0 if it announces none)
Announced == IF /\ Len(pend) >= ShortHdr /\ pend[1] = 170 /\ pend[2] \in {68, 69} /\ pend[3] \in {18, 19} /\ Len(pend) >= BinHdrLen(pend, 1)
             THEN IF BinTotal(pend, 1) > MaxLen THEN 0
                  ELSE IF opt.payload /\ ~Manager THEN BinTotal(pend, 1) - BinHdrLen(pend, 1) - BinCrc ELSE BinTotal(pend, 1)
             ELSE 0

Write == /\ IsEvent("w") /\ UNCHANGED opt
         /\ IF Len(pend) + Len(E.d) <= Cap THEN pend' = pend \o E.d /\ E.r = Len(E.d) ELSE pend' = pend /\ E.r = 0
         /\ E.av = Cap - Len(pend')
Options == IsEvent("opt") /\ opt' = [json |-> E.json, payload |-> E.payload, unk |-> E.unk] /\ UNCHANGED pend

Frame == /\ E.st = "SUCCESS" /\ pend # <<>>
         /\ \E d \in Dialects :
              LET c == Start[d] IN
              /\ c.k = "ok" /\ OutLen(c) <= E.bs
              /\ E.len = OutLen(c) /\ E.fmt = c.fmt /\ E.resp = c.resp /\ E.out = OutBytes(c)
              /\ Manager => E.act = d
              /\ pend' = Drop(pend, c.len)
Unknown == /\ E.st = "UNKNOWN" /\ pend # <<>>
           /\ E.len \in 1..Len(pend)
           /\ E.fmt = F_UNKNOWN
           /\ \A d \in Dialects : Junk(d, opt.json, pend, E.len) >= E.len
           /\ IF opt.unk THEN E.len <= E.bs /\ E.out = Take(pend, E.len) ELSE E.out = <<>>
           /\ pend' = Drop(pend, E.len)
Incomplete == /\ E.st = "INCOMPLETE" /\ pend # <<>> /\ UNCHANGED pend /\ E.out = <<>>
              /\ \E d \in Dialects : Start[d].k = "more"
              /\ \A d \in Dialects : Start[d].k # "ok"
Empty == E.st = "BUFFER_EMPTY" /\ pend = <<>> /\ UNCHANGED pend /\ E.out = <<>>
Full == /\ E.st = "BUFFER_FULL" /\ pend # <<>> /\ UNCHANGED pend /\ E.out = <<>>
        /\ \E d \in Dialects :
             LET c == Start[d] IN
             \/ c.k = "ok" /\ OutLen(c) > E.bs
             \/ c.k = "more" /\ (Len(pend) > E.bs \/ c.need > E.bs)   \* it is longer than that already
             \/ c.k = "bad" /\ c.need > E.bs                         \* refused before its checksum is looked at
             \/ Announced > E.bs
             \/ E.bs = 0
             \/ pend[1] = 170 /\ E.bs < BinHdr                        \* no room for a header
             \/ pend[1] = OpenB /\ opt.json /\ Len(pend) > E.bs
        \* a frame that fits is not refused
        /\ \A d \in Dialects : Start[d].k = "ok" => OutLen(Start[d]) > E.bs \/ (pend[1] = 170 /\ E.bs < BinHdr)
Get == /\ IsEvent("g") /\ UNCHANGED opt
       /\ E.guard                                                    \* nothing outside the caller's bytes was touched
       /\ (Frame \/ Unknown \/ Incomplete \/ Empty \/ Full)
       /\ E.av = Cap - Len(pend')
\* Flush hands back what is pending, oldest first.
Flush == /\ IsEvent("fl") /\ UNCHANGED opt
         /\ E.guard
         /\ LET n == IF E.bs < Len(pend) THEN E.bs ELSE Len(pend) IN
            /\ E.r = n /\ pend' = Drop(pend, n)
            /\ opt.unk => E.out = Take(pend, n)
         /\ E.av = Cap - Len(pend')
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Write \/ Options \/ Get \/ Flush \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================

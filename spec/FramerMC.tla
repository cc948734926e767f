------------------------------ MODULE FramerMC ------------------------------
(* Exhaustive check of FrameSpec on toy parameters: a stream arrives byte   *)
(* by byte, a framer hands out frames and junk whenever it likes.           *)
(*   Stable       what Classify decides it never takes back                 *)
(*   SameFrames   the frames handed out are those of the whole stream, in   *)
(*                order, whenever the framer ran                            *)
(*   Conserved    frames and junk tile the consumed prefix                  *)
EXTENDS FrameSpec, Integers
CONSTANTS Alphabet, N, Dia, WithJson

ToySum(buf, a, b) == LET RECURSIVE S(_) S(j) == IF j > b THEN 0 ELSE buf[j] + S(j + 1) IN S(a)
ToyAscCrcOk(buf, from, to, p) == buf[p] = 48 + (ToySum(buf, from, to) % 2)
ToyBinCrcOk(buf, from, to) == ToySum(buf, from, to) % 2 = 0
ToyXor(a, b) == (a + b) % 2
ToyNmeaCrcOk(buf, x, p) == buf[p] = 48 + x

VARIABLES sent, cons, frames
vars == <<sent, cons, frames>>
pend == SubSeq(sent, cons + 1, Len(sent))
C(buf, i) == Classify(Dia, WithJson, buf, i)

Init == sent = <<>> /\ cons = 0 /\ frames = <<>>
Arrive == Len(sent) < N /\ \E x \in Alphabet : sent' = Append(sent, x) /\ UNCHANGED <<cons, frames>>
Deliver == /\ pend # <<>> /\ C(pend, 1).k = "ok"
           /\ frames' = Append(frames, <<cons + 1, C(pend, 1).len, C(pend, 1).fmt, C(pend, 1).resp>>)
           /\ cons' = cons + C(pend, 1).len /\ UNCHANGED sent
Discard == /\ pend # <<>> /\ C(pend, 1).k = "bad" /\ cons' = cons + C(pend, 1).skip /\ UNCHANGED <<sent, frames>>
Next == Arrive \/ Deliver \/ Discard
Spec == Init /\ [][Next]_vars

\* the frames of a whole stream, by one pass over it
RECURSIVE FramesOf(_, _)
FramesOf(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == C(s, i) IN
       IF c.k = "ok" THEN <<<<i, c.len, c.fmt, c.resp>>>> \o FramesOf(s, i + c.len)
       ELSE IF c.k = "bad" THEN FramesOf(s, i + c.skip) ELSE <<>>
SameFrames == LET f == FramesOf(sent, 1) IN
              /\ Len(frames) <= Len(f) /\ frames = SubSeq(f, 1, Len(frames))
              /\ (pend = <<>> \/ C(pend, 1).k = "more") => frames = f
Conserved == /\ cons <= Len(sent)
             /\ \A n \in 1..Len(frames) : /\ frames[n][2] >= 1 /\ frames[n][1] + frames[n][2] - 1 <= cons
                                          /\ n > 1 => frames[n - 1][1] + frames[n - 1][2] <= frames[n][1]
Progress == pend # <<>> => LET c == C(pend, 1) IN /\ c.k = "ok" => c.len \in 1..Len(pend)
                                                  /\ c.k = "bad" => c.skip \in 1..Len(pend)
\* only sync bytes start anything, and the junk walk agrees with byte-by-byte discarding
SyncsOnly == \A i \in 1..Len(pend) : ~IsSync(Dia, WithJson, pend[i]) => C(pend, i) = Bad(1)
RECURSIVE Walk(_)
Walk(w) == IF w >= Len(pend) THEN w ELSE LET c == C(pend, w + 1) IN IF c.k = "bad" THEN Walk(w + c.skip) ELSE w
JunkAgrees == Junk(Dia, WithJson, pend, Len(pend)) = Walk(0)
Stable == [][sent' # sent /\ pend # <<>> =>
              LET c == C(pend, 1)  d == C(pend', 1) IN
              /\ c.k = "ok" => d = c
              /\ c.k = "bad" => d.k = "bad" /\ d.skip = c.skip
              /\ c.k = "more" /\ d.k = "ok" => d.len >= c.need]_vars
=============================================================================

-------------------------------- MODULE Text --------------------------------
(* Characters and strings as byte sequences.                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Integers
CharTab == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(CharTab, i, i) : i \in 1..Len(CharTab)} |-> 31 + CHOOSE i \in 1..Len(CharTab) : SubSeq(CharTab, i, i) = c]
Bytes(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexDigitLower(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* does p occur in s at position i
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
\* first position >= i holding a byte of set S, Len(s)+1 if none
RECURSIVE FindR(_, _, _, _)
FindR(s, i, n, S) == IF i > n THEN n + 1
                     ELSE LET k == IF i + 15 < n THEN i + 15 ELSE n
                              I == {j \in i..k : s[j] \in S}
                          IN IF I = {} THEN FindR(s, k + 1, n, S) ELSE CHOOSE j \in I : \A m \in I : j <= m
Find(s, i, S) == LET I == {j \in i..Len(s) : s[j] \in S} IN IF I = {} THEN Len(s) + 1 ELSE CHOOSE j \in I : \A k \in I : j <= k
FindLast(s, S) == LET I == {j \in 1..Len(s) : s[j] \in S} IN IF I = {} THEN 0 ELSE CHOOSE j \in I : \A k \in I : j >= k
\* a small non-negative decimal (fits TLC's integers)
Nat10(s) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
=============================================================================

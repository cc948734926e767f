--------------------------------- MODULE Num ---------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): little-endian  *)
(* sequences of base-10^4 digits without leading zeros; <<>> is zero.        *)
(* Also the exact decimal values of IEEE-754 numbers.                        *)
EXTENDS Text
BASE == 10000
Small(n) == IF n = 0 THEN <<>> ELSE IF n < BASE THEN <<n>> ELSE IF n < BASE * BASE THEN <<n % BASE, n \div BASE>>
            ELSE <<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE)>>
\* a * k + c for k <= 2*10^5
MulAdd(a, k, c) ==
  LET x == FoldLeft(LAMBDA s, d : LET v == d * k + s[2] IN <<Append(s[1], v % BASE), v \div BASE>>, <<<<>>, c>>, a)
  IN x[1] \o Small(x[2])
RECURSIVE MulPow(_, _, _, _)
\* a * k^n, multiplying by k^step at a time
MulPow(a, k, n, step) == IF n = 0 \/ a = <<>> THEN a
                         ELSE IF n >= step THEN MulPow(MulAdd(a, k ^ step, 0), k, n - step, step) ELSE MulAdd(a, k ^ n, 0)
Pow2(a, n) == MulPow(a, 2, n, 16)
Pow5(a, n) == MulPow(a, 5, n, 7)
Pow10(a, n) == MulPow(a, 10, n, 4)
\* little-endian bytes (or a mantissa)
FromBytes(b) == FoldRight(LAMBDA x, a : MulAdd(a, 256, x), b, <<>>)
Strip(a) == LET I == {i \in 1..Len(a) : a[i] # 0} IN IF I = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in I : \A j \in I : j <= i)
\* <<a div k, a mod k>>, k <= 2*10^5
DivMod(a, k) == LET x == FoldRight(LAMBDA d, s : LET v == s[2] * BASE + d IN <<<<v \div k>> \o s[1], v % k>>, a, <<<<>>, 0>>) IN <<Strip(x[1]), x[2]>>
RECURSIVE ToBytesR(_, _)
ToBytesR(a, n) == IF n = 0 THEN <<>> ELSE LET q == DivMod(a, 256) IN <<q[2]>> \o ToBytesR(q[1], n - 1)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
Plus(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      d(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
      x == FoldLeft(LAMBDA s, i : LET v == d(a, i) + d(b, i) + s[2] IN <<Append(s[1], v % BASE), v \div BASE>>, <<<<>>, 0>>, [i \in 1..n |-> i])
  IN IF x[2] = 0 THEN x[1] ELSE Append(x[1], x[2])
D4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
\* decimal digits, no leading zeros ("0" for zero)
Digits(a) == IF a = <<>> THEN <<48>>
             ELSE Dec(a[Len(a)]) \o FoldLeft(LAMBDA s, x : D4(x) \o s, <<>>, SubSeq(a, 1, Len(a) - 1))
FromDigits(s) ==
  LET n == Len(s)
      k == (n + 3) \div 4
      chunk(i) == LET hi == n - 4 * (i - 1)
                      lo == IF hi - 3 < 1 THEN 1 ELSE hi - 3 IN Nat10(SubSeq(s, lo, hi))
  IN Strip([i \in 1..k |-> chunk(i)])
-----------------------------------------------------------------------------
(* integers held in little-endian bytes *)
Zeros(n) == [i \in 1..n |-> 0]
IsNeg(b) == b[Len(b)] >= 128
Negate(b) == FoldLeft(LAMBDA s, x : LET v == (255 - x) + s[2] IN <<Append(s[1], v % 256), v \div 256>>, <<<<>>, 1>>, b)[1]
UText(b) == IF Len(b) <= 2 \/ (Len(b) = 4 /\ b[4] < 64) THEN Dec(FoldRight(LAMBDA x, a : a * 256 + x, b, 0)) ELSE Digits(FromBytes(b))
SText(b) == IF IsNeg(b) THEN <<45>> \o UText(Negate(b)) ELSE UText(b)
HexText(b) == FoldRight(LAMBDA x, s : s \o <<HexDigitLower(x \div 16), HexDigitLower(x % 16)>>, b, <<>>)
\* the bytes of a number written in decimal / hexadecimal; <<>> when it does not fit n bytes
UBytes(digits, n) == LET a == FromDigits(digits)
                         b == ToBytesR(a, n) IN
                     IF FromBytes(b) = a THEN b ELSE <<>>
SBytes(neg, digits, n) ==
  LET b == UBytes(digits, n) IN
  IF b = <<>> THEN <<>>
  ELSE IF ~neg THEN IF IsNeg(b) THEN <<>> ELSE b
  ELSE IF IsNeg(b) /\ ~(b[n] = 128 /\ \A i \in 1..(n - 1) : b[i] = 0) THEN <<>> ELSE Negate(b)
HexBytes(digits, n) ==
  LET nz == {i \in 1..Len(digits) : digits[i] # 48}
      s == IF nz = {} THEN <<>> ELSE Drop(digits, (CHOOSE i \in nz : \A j \in nz : i <= j) - 1)
      at(k) == IF k <= Len(s) THEN HexVal(s[Len(s) + 1 - k]) ELSE 0 IN     \* k-th nibble from the right
  IF Len(s) > 2 * n THEN <<>> ELSE [i \in 1..n |-> at(2 * i - 1) + 16 * at(2 * i)]
-----------------------------------------------------------------------------
(* IEEE-754: value = (-1)^neg * man * 2^exp; m is a natural number (BigNat). *)
FNeg(b) == b[Len(b)] >= 128
FExpBits(b) == IF Len(b) = 4 THEN (b[4] % 128) * 2 + (b[3] \div 128) ELSE (b[8] % 128) * 16 + (b[7] \div 16)
FNormal(b) == FExpBits(b) # 0
FFinite(b) == FExpBits(b) # (IF Len(b) = 4 THEN 255 ELSE 2047)
FZero(b) == FExpBits(b) = 0 /\ (IF Len(b) = 4 THEN b[3] % 128 = 0 ELSE b[7] % 16 = 0) /\ \A i \in 1..(Len(b) - 2) : b[i] = 0
FMan(b) == LET top == (IF FNormal(b) THEN 1 ELSE 0) IN
           IF Len(b) = 4 THEN FromBytes(<<b[1], b[2], (b[3] % 128) + 128 * top>>)
           ELSE FromBytes(SubSeq(b, 1, 6) \o <<(b[7] % 16) + 16 * top>>)
FExp(b) == (IF FNormal(b) THEN FExpBits(b) ELSE 1) - (IF Len(b) = 4 THEN 150 ELSE 1075)
FManMin(b) == FNormal(b) /\ (IF Len(b) = 4 THEN b[3] % 128 = 0 ELSE b[7] % 16 = 0) /\ \A i \in 1..(Len(b) - 2) : b[i] = 0
\* m * 2^e as an exact decimal [n, s]: n * 10^-s
Exact(m, e) == IF e >= 0 THEN [n |-> Pow2(m, e), s |-> 0] ELSE [n |-> Pow5(m, 0 - e), s |-> 0 - e]
FExact(b) == Exact(FMan(b), FExp(b))
\* compare [n, s] decimals
Cmp10(x, y) == IF x.s = y.s THEN Cmp(x.n, y.n) ELSE IF x.s < y.s THEN Cmp(Pow10(x.n, y.s - x.s), y.n) ELSE Cmp(x.n, Pow10(y.n, x.s - y.s))
\* the first k digits of the digit string d, rounded half to even on the rest (k >= 0); may carry into one more digit
AllZero(d, from) == \A i \in from..Len(d) : d[i] = 48
Inc(d) == Digits(MulAdd(FromDigits(<<49>> \o d), 1, 1))          \* with a guard digit in front
RoundDigits(d, k) ==
  IF k >= Len(d) THEN d
  ELSE LET up == \/ d[k + 1] > 53
                 \/ d[k + 1] = 53 /\ (~AllZero(d, k + 2) \/ (k > 0 /\ d[k] % 2 = 1))
           t == Take(d, k) IN
       IF ~up THEN t ELSE LET r == Inc(t) IN IF r[1] = 49 THEN Drop(r, 1) ELSE <<49>> \o Drop(r, 1)
ZeroText(n) == [i \in 1..n |-> 48]
FixedText(b, p) ==
  LET x == FExact(b)
      d0 == Digits(x.n)
      d == IF Len(d0) <= x.s THEN ZeroText(x.s + 1 - Len(d0)) \o d0 ELSE d0       \* at least one digit before the point
      ip == Len(d) - x.s
      r == IF p >= x.s THEN d \o ZeroText(p - x.s) ELSE RoundDigits(d, ip + p)
      il == Len(r) - p
      i == Take(r, il)
      sg == IF FNeg(b) THEN <<45>> ELSE <<>>
  IN sg \o i \o (IF p = 0 THEN <<>> ELSE <<46>> \o Drop(r, il))
ExpText(e) == <<101, IF e < 0 THEN 45 ELSE 43>> \o (LET a == IF e < 0 THEN 0 - e ELSE e IN IF a < 10 THEN <<48, 48 + a>> ELSE Dec(a))
SciText(b, p) ==
  LET sg == IF FNeg(b) THEN <<45>> ELSE <<>>
      frac(d) == IF p = 0 THEN <<>> ELSE <<46>> \o d IN
  IF FZero(b) THEN sg \o <<48>> \o frac(ZeroText(p)) \o ExpText(0)
  ELSE LET x == FExact(b)
           d == Digits(x.n)
           e == Len(d) - 1 - x.s
           r0 == IF Len(d) < p + 1 THEN d \o ZeroText(p + 1 - Len(d)) ELSE RoundDigits(d, p + 1)
           carry == Len(r0) > p + 1
           r == Take(r0, p + 1)
       IN sg \o <<r[1]>> \o frac(Drop(r, 1)) \o ExpText(IF carry THEN e + 1 ELSE e)
\* |value| against 10^k
FCmpPow10(b, k) == IF k >= 0 THEN Cmp10(FExact(b), [n |-> Pow10(<<1>>, k), s |-> 0]) ELSE Cmp10(FExact(b), [n |-> <<1>>, s |-> 0 - k])
-----------------------------------------------------------------------------
(* decimal number text: [-]digits[.digits][e[+-]digits] *)
NumParts(t) ==
  LET neg == Len(t) > 0 /\ t[1] = 45
      u == IF neg THEN Drop(t, 1) ELSE t
      ee == Find(u, 1, {69, 101})
      mant == Take(u, ee - 1)
      ex == Drop(u, ee)
      dot == Find(mant, 1, {46})
      exneg == Len(ex) > 0 /\ ex[1] = 45
      exd == IF Len(ex) > 0 /\ ex[1] \in {43, 45} THEN Drop(ex, 1) ELSE ex
      ev == IF exneg THEN 0 - Nat10(exd) ELSE Nat10(exd)
      fr == Drop(mant, dot)
  IN [neg |-> neg, n |-> FromDigits(Take(mant, dot - 1) \o fr), s |-> Len(fr) - ev]
\* a - 1 (a > 0)
Pred(a) == LET i == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..(i - 1) : a[j] = 0 IN
           Strip([j \in 1..Len(a) |-> IF j < i THEN BASE - 1 ELSE IF j = i THEN a[j] - 1 ELSE a[j]])
\* n * 10^-s against h * 2^q
Pos(k) == IF k > 0 THEN k ELSE 0
CmpScaled(n, s, h, q) == Cmp(Pow5(Pow2(n, Pos(0 - q - s)), Pos(0 - s)), Pow5(Pow2(h, Pos(q + s)), Pos(s)))
\* is b the floating-point number nearest to the text (ties to even)
Nearest(b, t) ==
  LET p == NumParts(t)
      m == FMan(b)
      e == FExp(b)
      even == b[1] % 2 = 0
      ch == CmpScaled(p.n, p.s, MulAdd(m, 2, 1), e - 1)
      \* half way down: (2m - 1) * 2^(e-1), or (4m - 1) * 2^(e-2) below a power of two
      cl == IF FManMin(b) /\ FExpBits(b) > 1 THEN CmpScaled(p.n, p.s, Pred(MulAdd(m, 4, 0)), e - 2) ELSE CmpScaled(p.n, p.s, Pred(MulAdd(m, 2, 0)), e - 1)
  IN /\ FNeg(b) = p.neg
     /\ FFinite(b)
     /\ ch < 0 \/ (ch = 0 /\ even)
     /\ FZero(b) \/ cl > 0 \/ (cl = 0 /\ even)
=============================================================================

------------------------------ MODULE RangeSpec ------------------------------
(* Compressed range messages (RANGECMP, RANGECMP2, RANGECMP4, RANGECMP5) and   *)
(* the observations they state: bit fields, scales, the differential blocks    *)
(* of RANGECMP4 against the reference blocks of the same second, the channel   *)
(* tracking status word, and the two ways of extending lock times.             *)
EXTENDS Num, TLC
MAXOBS == 325
(* --- bits: p is a bit position (from 0) in the bytes b ---------------------- *)
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0
                 ELSE LET k == IF n < 8 - (p % 8) THEN n ELSE 8 - (p % 8) IN
                      ((b[(p \div 8) + 1] \div (2 ^ (p % 8))) % (2 ^ k)) + ((2 ^ k) * Bits(b, p + k, n - k))    \* n <= 30
Signed(v, n) == IF v >= 2 ^ (n - 1) THEN v - (2 ^ n) ELSE v
SBits(b, p, n) == Signed(Bits(b, p, n), n)
Wide(b, p, n) == MulAdd(MulAdd(Small(Bits(b, p + 24, n - 24)), 4096, 0), 4096, 0)                             \* 24 < n <= 54
UBig(b, p, n) == Plus(Wide(b, p, n), Small(Bits(b, p, 24)))
Ones(b, p, n) == {i \in 0..(n - 1) : Bits(b, p + i, 1) = 1}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE i \in S : \A j \in S : i <= j IN <<x>> \o Sorted(S \ {x})
(* --- signed big numbers ----------------------------------------------------- *)
RECURSIVE Less(_, _, _)
\* a - c for a >= c
Less(a, c, i) == LET d(s, j) == IF j <= Len(s) THEN s[j] ELSE 0
                     x == FoldLeft(LAMBDA t, j : LET v == d(a, j) - d(c, j) - t[2] IN IF v < 0 THEN <<Append(t[1], v + BASE), 1>> ELSE <<Append(t[1], v), 0>>, <<<<>>, 0>>, [j \in 1..Len(a) |-> j])
                 IN Strip(x[1])
Minus(a, c) == Less(a, c, 0)
Big(i) == IF i < 0 THEN [neg |-> TRUE, n |-> Small(0 - i)] ELSE [neg |-> FALSE, n |-> Small(i)]
Nat2(n) == [neg |-> FALSE, n |-> n]
BNeg(x) == [neg |-> ~x.neg, n |-> x.n]
BAdd(x, y) == IF x.neg = y.neg THEN [neg |-> x.neg, n |-> Plus(x.n, y.n)]
              ELSE IF Cmp(x.n, y.n) >= 0 THEN [neg |-> x.neg, n |-> Minus(x.n, y.n)] ELSE [neg |-> y.neg, n |-> Minus(y.n, x.n)]
BMul(x, k) == [neg |-> x.neg, n |-> MulAdd(x.n, k, 0)]                                                         \* 0 < k <= 2*10^5
Mul(a, c) == FoldRight(LAMBDA d, s : Plus(IF s = <<>> THEN <<>> ELSE <<0>> \o s, MulAdd(a, d, 0)), c, <<>>)
(* --- numbers an observation states: none, anything, or p / q ----------------- *)
NaN == [k |-> "nan"]
Whatever == [k |-> "any"]
Q(x, q) == [k |-> "q", neg |-> x.neg, p |-> Strip(x.n), q |-> q]
QI(i, q) == Q(Big(i), Small(q))
IsNaN(b) == ~FFinite(b) /\ ((\E i \in 1..(Len(b) - 2) : b[i] # 0) \/ (IF Len(b) = 4 THEN b[3] % 128 # 0 ELSE b[7] % 16 # 0))
\* |x - p/q| <= 2^-k * p/q + 1/a
Close(b, v, k, a) ==
  CASE v.k = "any" -> TRUE
    [] v.k = "nan" -> IsNaN(b)
    [] OTHER ->
       IF ~FFinite(b) THEN FALSE
       ELSE LET x == FExact(b)
                l == [neg |-> FNeg(b), n |-> Mul(x.n, v.q)]
                t == Pow10(v.p, x.s)
                d == BAdd(l, [neg |-> ~v.neg, n |-> t]).n IN
            d = <<>> \/ Cmp(MulAdd(Pow2(d, k), a, 0), Plus(MulAdd(t, a, 0), Pow2(Pow10(v.q, x.s), k))) <= 0
CloseD(b, v) == Close(b, v, 46, 200000)
CloseF(b, v) == Close(b, v, 22, 200000)
(* --- satellite systems, signals, wavelengths --------------------------------- *)
GPS == 0   GLO == 1   SBAS == 2   GAL == 5   BDS == 6   QZSS == 7   LBAND == 8   NAVIC == 9
CtsSys(y) == CASE y = GPS -> 0 [] y = GLO -> 1 [] y = SBAS -> 2 [] y = GAL -> 3 [] y = BDS -> 4 [] y = QZSS -> 5 [] y = NAVIC -> 6 [] OTHER -> 7
Pick(t, k) == LET I == {i \in 1..Len(t) : t[i][1] = k} IN IF I = {} THEN -1 ELSE t[CHOOSE i \in I : TRUE][2]
\* <<signal in the message, signal in the tracking status>>
Sig2(y) == CASE y = GPS -> << <<1, 0>>, <<4, 9>>, <<5, 17>>, <<6, 5>>, <<7, 14>>, <<15, 16>> >>
             [] y = GLO -> << <<1, 0>>, <<3, 1>>, <<4, 5>>, <<6, 6>> >>
             [] y = SBAS -> << <<1, 0>>, <<2, 6>> >>
             [] y = GAL -> << <<1, 2>>, <<2, 12>>, <<3, 17>>, <<4, 20>>, <<5, 7>>, <<12, 6>> >>
             [] y = BDS -> << <<1, 0>>, <<2, 4>>, <<3, 1>>, <<4, 5>>, <<13, 2>>, <<16, 6>>, <<19, 7>>, <<20, 9>>, <<21, 11>> >>
             [] y = QZSS -> << <<1, 0>>, <<2, 24>>, <<3, 17>>, <<4, 14>>, <<8, 16>>, <<10, 28>>, <<11, 27>> >>
             [] y = NAVIC -> << <<1, 0>> >>
             [] OTHER -> << <<1, 19>> >>                                       \* not one of the navigation systems
Sig4(y) == IF CtsSys(y) = 7 THEN <<>> ELSE IF y = BDS THEN << <<1, 0>>, <<2, 4>>, <<3, 1>>, <<4, 5>>, <<5, 2>>, <<6, 6>>, <<7, 7>>, <<9, 9>>, <<11, 11>> >> ELSE Sig2(y)
L1 == 1575420000   L2 == 1227600000   L5 == 1176450000   E5B == 1207140000   E6 == 1278750000   ALT == 1191795000   B1 == 1561098000   B3 == 1268520000   G3 == 1202025000
\* carrier frequency in Hz of a signal of the tracking status; 0: not known
Hz(c, s, g) ==
  CASE c = 0 -> IF s \in {0, 16} THEN L1 ELSE IF s \in {5, 9, 17} THEN L2 ELSE IF s = 14 THEN L5 ELSE 0
    [] c = 1 -> IF s = 0 THEN 1602000000 + ((g - 7) * 562500) ELSE IF s \in {1, 5} THEN 1246000000 + ((g - 7) * 437500) ELSE IF s = 6 THEN G3 ELSE 0
    [] c = 2 -> IF s = 0 THEN L1 ELSE IF s = 6 THEN L5 ELSE 0
    [] c = 3 -> IF s = 2 THEN L1 ELSE IF s \in {6, 7} THEN E6 ELSE IF s = 12 THEN L5 ELSE IF s = 17 THEN E5B ELSE IF s = 20 THEN ALT ELSE 0
    [] c = 4 -> IF s \in {0, 4} THEN B1 ELSE IF s \in {1, 5, 11} THEN E5B ELSE IF s \in {2, 6} THEN B3 ELSE IF s = 7 THEN L1 ELSE IF s = 9 THEN L5 ELSE 0
    [] c = 5 -> IF s \in {0, 24, 16} THEN L1 ELSE IF s = 17 THEN L2 ELSE IF s = 14 THEN L5 ELSE IF s \in {27, 28} THEN E6 ELSE 0
    [] c = 6 -> IF s = 0 THEN L5 ELSE 0
    [] OTHER -> 0
\* a GLONASS frequency number there is no frequency for
NoHz(c, s, g) == c = 1 /\ s \in {0, 1, 5} /\ g > 20
Light == Small(299792458)
\* Doppler of the first frequency against this signal's: <<n, d>> (its value is multiplied by d / n)
Scale2(y, s) ==
  CASE y = GPS -> IF s \in {1, 15} THEN <<1, 1>> ELSE IF s \in {4, 5, 6} THEN <<154, 120>> ELSE IF s = 7 THEN <<154, 115>> ELSE <<0, 0>>
    [] y = GLO -> IF s = 1 THEN <<1, 1>> ELSE IF s \in {3, 4} THEN <<9, 7>> ELSE IF s = 6 THEN <<313, 235>> ELSE <<0, 0>>
    [] y = SBAS -> IF s = 1 THEN <<1, 1>> ELSE IF s = 2 THEN <<154, 115>> ELSE <<0, 0>>
    [] y = GAL -> IF s = 1 THEN <<1, 1>> ELSE IF s = 2 THEN <<154, 115>> ELSE IF s = 3 THEN <<154, 118>> ELSE IF s = 4 THEN <<308, 233>> ELSE IF s \in {5, 12} THEN <<154, 125>> ELSE <<0, 0>>
    [] y = BDS -> IF s \in {1, 2} THEN <<1, 1>> ELSE IF s = 19 THEN <<1526, 1540>> ELSE IF s \in {3, 4, 21} THEN <<1526, 1180>> ELSE IF s = 20 THEN <<1526, 1150>> ELSE IF s \in {13, 16} THEN <<1526, 1240>> ELSE <<0, 0>>
    [] y = QZSS -> IF s \in {1, 2, 8} THEN <<1, 1>> ELSE IF s = 3 THEN <<154, 120>> ELSE IF s = 4 THEN <<154, 115>> ELSE IF s \in {10, 11} THEN <<154, 125>> ELSE <<0, 0>>
    [] y \in {NAVIC, LBAND} -> IF s = 1 THEN <<1, 1>> ELSE <<0, 0>>
    [] OTHER -> <<0, 0>>
\* the PRN of the satellite in slot i; 0: there is none
Prn(y, i) == CASE y = GLO -> IF i \in 43..64 THEN 0 ELSE i + 37
               [] y = SBAS -> IF i \in 1..39 THEN i + 119 ELSE IF i \in 54..62 THEN i + 129 ELSE 0
               [] y = QZSS -> i + 192
               [] OTHER -> i
(* --- the channel tracking status word as <<high, low>> ------------------------ *)
B1of(x) == IF x THEN 1 ELSE 0
Word(track, sv, phase, parity, code, corr, c, grouped, sig, primary, half) ==
  << (c % 8) + (16 * B1of(grouped)) + (32 * (sig % 32)) + (2048 * B1of(primary)) + (4096 * B1of(half)),
     track + (32 * (sv % 32)) + (1024 * B1of(phase)) + (2048 * B1of(parity)) + (4096 * B1of(code)) + (8192 * (corr % 8)) >>
Grouped(w) == IF (w[1] \div 16) % 2 = 1 THEN w ELSE <<w[1] + 16, w[2]>>
\* every bit of a status word but the two reserved ones is kept
WordKept(w) == <<w[1] - (((w[1] \div 8) % 2) * 8) - (((w[1] \div 1024) % 2) * 1024), w[2]>>
(* --- lock times (milliseconds) -------------------------------------------------- *)
WeekMs == 604800000
\* from time u to time t: [w, ms]; weeks at most one apart
Since(t, u) == IF t.w = u.w THEN t.ms - u.ms ELSE IF t.w > u.w THEN (WeekMs - u.ms) + t.ms ELSE 0 - ((WeekMs - t.ms) + u.ms)
\* RANGECMP2: a lock time of max means max or longer. s: <<>>, or <<when it was first seen at max>>
Lock2(s, t, bits, max) == IF bits # max THEN [s |-> <<>>, ms |-> bits]
                          ELSE IF s = <<>> THEN [s |-> <<t>>, ms |-> max]
                          ELSE [s |-> s, ms |-> max + Since(t, s[1])]
\* RANGECMP4: bits stand for a range of lock times starting at low(bits). s: <<>> or [bits, abs, at]
Low(bits) == IF bits = 0 THEN 0 ELSE 2 ^ (bits + 3)
Lock4(s, t, bits, top, low(_)) ==
  LET known == s # <<>>
      new == IF ~known THEN [bits |-> bits, abs |-> bits = 0, at |-> t]
             ELSE IF ~s.abs /\ bits # s.bits THEN [bits |-> bits, abs |-> bits = 0 \/ bits > s.bits, at |-> t]      \* the range changed: exact from now on
             ELSE IF bits < s.bits THEN [bits |-> bits, abs |-> FALSE, at |-> t]                                    \* lock was lost
             ELSE IF s.abs /\ bits < top /\ Since(t, s.at) > low(bits + 1) THEN [s EXCEPT !.at = t]                 \* the range should have changed by now
             ELSE s
  IN [s |-> new, ms |-> Since(t, new.at) + low(new.bits)]
(* --- what a message states: [st, obs, l2, l4, refs] ----------------------------- *)
\* the state: lock times by <<system, signal, satellite, source>>, reference blocks; wild: nothing is known of the
\* lock times; lost: nor of the reference blocks
Fresh == [l2 |-> <<>>, l4 |-> <<>>, refs |-> <<>>, wild |-> FALSE, lost |-> FALSE]
Lost(s) == [s EXCEPT !.wild = TRUE, !.lost = TRUE]
Success == "SUCCESS"
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Put(f, k, v) == (k :> v) @@ f
Fail == [st |-> "FAIL"]
N32(b, i) == LET n == FromBytes(SubSeq(b, i, i + 3)) IN IF Len(n) > 2 \/ (Len(n) = 2 /\ n[2] > 99) THEN 1000000 ELSE FoldRight(LAMBDA d, s : s * BASE + d, n, 0)   \* large ones are all alike
Obs(prn, glo, psr, psd, adr, asd, dop, cno, lock, cts) == [prn |-> prn, glo |-> glo, psr |-> psr, psd |-> psd, adr |-> adr, asd |-> asd, dop |-> dop, cno |-> cno, lock |-> lock, cts |-> cts]
E5 == 100000
Std1 == <<5000, 7500, 11300, 16900, 25300, 38000, 57000, 85400, 128100, 237500, 475000, 950000, 1900000, 3800000, 7600000, 15200000>>
Std2 == <<2000, 3000, 4500, 6600, 9900, 14800, 22000, 32900, 49100, 73200, 109200, 162900, 243000, 362500, 540900, 540900>>
Adr2 == <<391, 521, 696, 929, 1239, 1654, 2208, 2947, 3933, 5249, 7006, 9350, 12480, 16656, 22230, 22230>>
Adr4 == <<300, 500, 700, 900, 1200, 1600, 2200, 2900, 3900, 5200, 7000, 9300, 12400, 16600, 22200, 22200>>
Std5 == Take(Std2, 15) \o <<687600, 874100, 1111100, 1412500, 1795700, 2282800, 2902000, 3689100, 4689800, 5961900, 7579100, 9634900, 12248400, 15570700, 19794300, 25163400, 25163400>>
Adr5 == <<391, 458, 536, 628, 735, 861, 1001, 1182, 1385, 1621, 1900, 2223, 2607, 3054, 3577, 4190, 4908, 5749, 6734, 7889, 9240, 10824, 12679, 14851, 17396, 20378, 23870, 27961, 32753, 38366, 44940, 44940>>
(* RANGECMP: records of 24 bytes *)
RECURSIVE RoundDiv(_, _, _, _)
\* the integer nearest to p / q, in lo..hi
RoundDiv(p, q, lo, hi) == IF lo = hi THEN lo
                          ELSE LET m == (lo + hi + 1) \div 2 IN
                               IF Cmp(MulAdd(p, 2, 0), MulAdd(q, (2 * m) - 1, 0)) >= 0 THEN RoundDiv(p, q, m, hi) ELSE RoundDiv(p, q, lo, m - 1)
\* is p / q half way between two integers, as far as a double can tell
HalfWay(p, q, r) == LET e == BAdd(Nat2(MulAdd(p, 2, 0)), [neg |-> TRUE, n |-> MulAdd(q, 2 * r, 0)]).n IN   \* |2p - 2qr|
                    Cmp(Pow2(BAdd(Nat2(q), [neg |-> TRUE, n |-> e]).n, 30), q) <= 0
Rec1(b, o) ==
  LET cts == <<b[o + 3] + (256 * b[o + 4]), b[o + 1] + (256 * b[o + 2])>>
      c == cts[1] % 8
      s == (cts[1] \div 32) % 32
      p == 8 * o
      g == Bits(b, p + 170, 6)
      dop == SBits(b, p + 32, 28)
      psr == UBig(b, p + 60, 36)                                              \* 1/128 m
      adr == FromBytes(SubSeq(b, o + 13, o + 16))                             \* 1/256 cycles
      sd == b[o + 17]
      hz == Hz(c, s, g)
      den == Pow2(Mul(Small(256), Light), 23)
      num == Plus(MulAdd(Mul(psr, Small(hz)), 2, 0), Mul(adr, Light))         \* cycles in 1 / (256 c)
      r == RoundDiv(num, den, 0, 1000)
      whole(k) == Q(BAdd(Nat2(adr), [neg |-> TRUE, n |-> Pow2(Small(k), 31)]), Small(256))
  IN Obs(b[o + 18], g, Q(Nat2(psr), Small(128)), QI(Std1[(sd % 16) + 1], E5),
         IF hz = 0 THEN Whatever ELSE IF HalfWay(num, den, r) THEN Whatever ELSE whole(r),
         QI((sd \div 16) + 1, 512), QI(dop, 256), QI(Bits(b, p + 165, 5) + 20, 1), QI(Bits(b, p + 144, 21), 32), cts)
Range1(b, s) ==
  LET n == N32(b, 1) IN
  IF Len(b) < 4 \/ n > MAXOBS \/ 4 + (24 * n) > Len(b) THEN Fail
  ELSE LET o(i) == 4 + (24 * (i - 1))
           sys(i) == b[o(i) + 3] % 8
           sig(i) == (b[o(i) + 3] \div 32) + (8 * (b[o(i) + 4] % 4)) IN
       IF \E i \in 1..n : NoHz(sys(i), sig(i), Bits(b, (8 * o(i)) + 170, 6)) THEN Fail
       ELSE [st |-> "SUCCESS", obs |-> [i \in 1..n |-> Rec1(b, o(i))], s |-> s]
(* RANGECMP2: satellite blocks of 10 bytes, each followed by signal blocks of 12 *)
Ms(v) == IF v = "any" THEN Whatever ELSE QI(v, 1000)
LockMax2 == 131071
One2(b, so, o, t, src, a) ==
  LET p == 8 * so
      q == 8 * o
      g == Bits(b, p + 16, 4)
      y == Bits(b, p + 20, 5)
      base == SBits(b, p + 26, 29)
      dbase == SBits(b, p + 55, 21)
      many == Bits(b, p + 76, 4) > 1
      sv == b[so + 1]
      prn == b[so + 2] + (IF y = GLO THEN 37 ELSE 0)
      sg == Bits(b, q, 5)
      c == CtsSys(y)
      cs == Pick(Sig2(y), sg)
      known == cs >= 0
      s == IF known THEN cs ELSE 0
      prim == Bits(b, q + 29, 1) = 1
      lk == Lock2(Get(a.s.l2, <<c, s, prn, src>>), t, Bits(b, q + 8, 17), LockMax2)
      sc == Scale2(y, sg)
      hz == Hz(c, s, g)
      phr == BAdd(BMul(Big(base), 2048), Big(Bits(b, q + 32 + 27, 20)))
      dop == BAdd(BMul(Big(dbase), 256), Big(SBits(b, q + 32 + 47, 17)))
  IN [a EXCEPT !.obs = Append(@, Obs(prn, g, Q(BAdd(BMul(Big(base), 128), Big(Bits(b, q + 32 + 13, 14))), Small(128)),
                                     QI(Std2[Bits(b, q + 32 + 5, 4) + 1], E5),
                                     IF hz = 0 \/ ~known THEN Whatever ELSE Q(BNeg([phr EXCEPT !.n = Mul(@, Small(hz))]), MulAdd(Light, 2048, 0)),
                                     QI(Adr2[Bits(b, q + 32 + 9, 4) + 1], E5),
                                     IF sc[1] = 0 THEN Whatever ELSE Q(BMul(dop, sc[2]), Small(256 * sc[1])),
                                     QI(Bits(b, q + 32, 5) + 20, 1),
                                     IF a.s.wild \/ ~known THEN Whatever ELSE QI(lk.ms, 1000),
                                     Word(IF prim THEN 4 ELSE 11, sv, Bits(b, q + 5, 1) = 1, Bits(b, q + 6, 1) = 1, Bits(b, q + 7, 1) = 1, Bits(b, q + 25, 4), c, many, s, prim, Bits(b, q + 30, 1) = 1))),
                !.s = IF known THEN [@ EXCEPT !.l2 = Put(@, <<c, s, prn, src>>, lk.s)] ELSE [@ EXCEPT !.wild = TRUE],
                !.st = IF known /\ NoHz(c, s, g) THEN "FAIL" ELSE IF ~known /\ c = 1 /\ g > 20 THEN "ANY" ELSE @]
RECURSIVE Sats2(_, _, _, _, _, _)
Sats2(b, o, end, t, src, a) ==
  IF o = end \/ a.st # "SUCCESS" THEN a
  ELSE LET n == IF o + 10 > end THEN 0 ELSE Bits(b, (8 * o) + 76, 4) IN
       IF o + 10 + (12 * n) > end \/ Len(a.obs) + n > MAXOBS THEN Fail
       ELSE Sats2(b, o + 10 + (12 * n), end, t, src, FoldLeft(LAMBDA x, i : One2(b, o, o + 10 + (12 * (i - 1)), t, src, x), a, [i \in 1..n |-> i]))
Range2(b, s, t, src) ==
  LET n == N32(b, 1) IN
  IF Len(b) < 4 \/ 4 + n > Len(b) THEN Fail ELSE Sats2(b, 4, 4 + n, t, src, [st |-> "SUCCESS", obs |-> <<>>, s |-> s])
(* RANGECMP4 and RANGECMP5: a stream of bits *)
Flawed(v) == [ok |-> FALSE, sure |-> FALSE, v |-> v]
Val(ok, sure, v) == [ok |-> ok, sure |-> sure, v |-> v]
\* the parts of a block: metres in 10^-7, metres per second in 10^-4
Block(b, p, w) == [par |-> Bits(b, p, 1) = 1, half |-> Bits(b, p + 1, 1) = 1, cno |-> Bits(b, p + 2, 11), lock |-> Bits(b, p + 13, 4), psd |-> Bits(b, p + 17, w), asd |-> Bits(b, p + 17 + w, w)]
RefBits(five, sec) == 17 + (IF five THEN 10 ELSE 8) + (IF sec THEN 20 ELSE 37) + 23 + (IF five THEN IF sec THEN 16 ELSE 28 ELSE IF sec THEN 14 ELSE 26)
DiffBits(sec) == 25 + 19 + 16 + (IF sec THEN 14 ELSE 18)
\* a reference block; first: the first block of the satellite (the others are relative to it)
Ref(b, p, five, sec, first) ==
  LET w == IF five THEN 5 ELSE 4
      o == p + 17 + (2 * w)
      np == IF sec THEN 20 ELSE 37
      nd == IF five THEN IF sec THEN 16 ELSE 28 ELSE IF sec THEN 14 ELSE 26
      raw == IF sec THEN Big(SBits(b, o, 20)) ELSE Nat2(UBig(b, o, 37))
      okp == IF sec THEN SBits(b, o, 20) # -524288 ELSE Ones(b, o, 37) # 0..36
      psr == IF sec THEN BAdd(BMul(raw, 5000), first.psr.v) ELSE BMul(raw, 5000)
      phr == SBits(b, o + np, 23)
      dop == SBits(b, o + np + 23, nd)
      \* the value that stands for no Doppler: documented for 26 bits; for the other widths not
      odd == IF five THEN dop \in {0 - 33554432, 0 - 134217728, 0 - 32768} ELSE sec /\ dop = 0 - 8192
      sure == ~sec \/ (first.psr.ok /\ first.psr.sure)
  IN Block(b, p, w) @@
     [psr |-> Val(okp, sure /\ okp, psr),
      phr |-> Val(phr # 0 - 4194304, sure /\ okp, BAdd(BMul(Big(phr), 1000), psr)),
      dop |-> Val(five \/ sec \/ dop # 0 - 33554432, ~odd /\ (~sec \/ (first.dop.ok /\ first.dop.sure)), IF sec THEN BAdd(Big(dop), first.dop.v) ELSE Big(dop))]
Diff(b, p, sec, ref, ms) ==
  LET nd == IF sec THEN 14 ELSE 18
      psr == SBits(b, p + 25, 19)
      phr == SBits(b, p + 44, 16)
      dop == SBits(b, p + 60, nd)
      moved == IF ms = 0 THEN Big(0) ELSE BMul(ref.dop.v, ms)
      steady == ms = 0 \/ (ref.dop.ok /\ ref.dop.sure)
  IN Block(b, p, 4) @@
     [psr |-> Val(psr # 0 - 262144, steady /\ ref.psr.ok /\ ref.psr.sure, BAdd(BAdd(BMul(Big(psr), 5000), ref.psr.v), moved)),
      phr |-> Val(phr # 0 - 32768, steady /\ ref.phr.ok /\ ref.phr.sure, BAdd(BAdd(BMul(Big(phr), 1000), ref.phr.v), moved)),
      dop |-> Val(dop # (IF sec THEN 0 - 8192 ELSE 0 - 131072), ref.dop.ok /\ ref.dop.sure, BAdd(Big(dop), ref.dop.v))]
\* reference blocks, by what they are of; the last element of a key is the source
\* what is kept of them for a message of the source src on the whole second or not
KeptRefs(refs, whole, src) == IF whole THEN [k \in {k \in DOMAIN refs : k[Len(k)] # src} |-> refs[k]] ELSE refs
\* a block with the reference identifier id is relative to the block had
UsableRef(had, id) == had # <<>> /\ had[1].id = id
PutRef(refs, key, id, g, k) == Put(refs, key, <<[id |-> id, g |-> g, k |-> k]>>)
E7 == Small(10000000)
None == [psr |-> Val(TRUE, TRUE, Big(0)), dop |-> Val(TRUE, TRUE, Big(0))]
\* the observation a block k gives
Seen(k, five, y, slot, sg, g, t, src, a) ==
  LET c == CtsSys(y)
      cs == Pick(Sig4(y), sg)
      known == cs >= 0
      s == IF known THEN cs ELSE 0
      hz == Hz(c, s, g)
      prn == Prn(y, slot)
      prim == sg = 1 \/ (sg = 2 /\ y \in {BDS, QZSS})
      lk == Lock4(Get(a.s.l4, <<c, s, slot, src>>), t, k.lock, 15, Low)
      num(x, v) == IF ~x.ok THEN NaN ELSE IF ~x.sure THEN Whatever ELSE v
      cyc(x, d) == Q(BNeg([neg |-> x.v.neg, n |-> Mul(x.v.n, Small(hz))]), Mul(d, Light))
      nohz == ~known \/ hz = 0
  IN IF (prn = 0 /\ y # GLO /\ ~five) \/ (known /\ NoHz(c, s, g)) THEN [a EXCEPT !.st = "FAIL"]
     ELSE IF ~known /\ c = 1 /\ g > 20 THEN [a EXCEPT !.st = "ANY"]          \* neither the signal nor the frequency is one there is
     ELSE [a EXCEPT !.obs = Append(@, Obs(prn, g, num(k.psr, Q(k.psr.v, E7)), QI((IF five THEN Std5 ELSE Std2)[k.psd + 1], E5),
                                          IF nohz THEN Whatever ELSE num(k.phr, cyc(k.phr, E7)),
                                          QI((IF five THEN Adr5 ELSE Adr4)[k.asd + 1], E5),
                                          IF nohz THEN Whatever ELSE num(k.dop, cyc(k.dop, Small(10000))),
                                          QI(k.cno, 20), IF a.s.wild \/ ~known THEN Whatever ELSE QI(lk.ms, 1000),
                                          Word(IF prim THEN 4 ELSE 11, 0, k.phr.ok, k.par, k.psr.ok, 0, c, FALSE, s, prim, k.half))),
                    !.s = IF known THEN [@ EXCEPT !.l4 = Put(@, <<c, s, slot, src>>, lk.s)] ELSE [@ EXCEPT !.wild = TRUE]]
\* one signal of a satellite: h = [diff, id, g, y, slot, src, five]; a.first: its first block, or <<>>
Signal(b, end, h, sg, t, a) ==
  IF a.st # "SUCCESS" THEN a
  ELSE LET sec == a.first # <<>>
           n == IF h.diff THEN DiffBits(sec) ELSE RefBits(h.five, sec)
           key == <<h.y, sg, h.slot, h.src>>
           had == Get(a.s.refs, key) IN
       IF a.p + n > end THEN [a EXCEPT !.st = "FAIL"]
       ELSE IF ~h.diff THEN
              IF Len(a.obs) >= MAXOBS THEN [a EXCEPT !.st = "FAIL"]
              ELSE LET k == Ref(b, a.p, h.five, sec, IF sec THEN a.first[1] ELSE None)
                       x == Seen(k, h.five, h.y, h.slot, sg, h.g, t, h.src, a) IN
                   [x EXCEPT !.p = @ + n, !.first = IF sec THEN @ ELSE <<k>>,
                             !.s = IF h.five \/ x.st # "SUCCESS" THEN @ ELSE [@ EXCEPT !.refs = PutRef(@, key, h.id, h.g, k)]]
       ELSE IF a.s.lost THEN [a EXCEPT !.st = "ANY"]
       ELSE IF ~UsableRef(had, h.id)
            THEN [a EXCEPT !.p = @ + n, !.first = <<None>>]                              \* nothing to be relative to
       ELSE IF Len(a.obs) >= MAXOBS THEN [a EXCEPT !.st = "FAIL"]
       ELSE [Seen(Diff(b, a.p, sec, had[1].k, t.ms % 1000), FALSE, h.y, h.slot, sg, had[1].g, t, h.src, a) EXCEPT !.p = @ + n, !.first = <<None>>]
\* one satellite, signals sg
Satellite(b, end, five, y, slot, sg, t, src, a) ==
  IF a.st # "SUCCESS" THEN a
  ELSE IF a.p + 4 > end THEN [a EXCEPT !.st = "FAIL"]
  ELSE LET diff == Bits(b, a.p, 1) = 1 /\ ~five
           glo == y = GLO /\ ~diff
           p1 == a.p + 4 + (IF glo THEN 5 ELSE 0) IN
       IF p1 > end THEN [a EXCEPT !.st = "FAIL"]
       ELSE LET h == [diff |-> diff, id |-> Bits(b, a.p + 1, 3), g |-> IF glo THEN Bits(b, a.p + 4, 5) ELSE 0, y |-> y, slot |-> slot, src |-> src, five |-> five]
                x == FoldLeft(LAMBDA v, s : Signal(b, end, h, s, t, v), [a EXCEPT !.p = p1, !.first = <<>>], sg)
                from == Len(a.obs) + 1 IN
            IF Len(sg) < 2 THEN x ELSE [x EXCEPT !.obs = [i \in 1..Len(@) |-> IF i >= from THEN [@[i] EXCEPT !.cts = Grouped(@)] ELSE @[i]]]
System(b, end, five, y, t, src, a) ==
  IF a.st # "SUCCESS" THEN a
  ELSE IF a.p + 80 > end THEN [a EXCEPT !.st = "FAIL"]
  ELSE LET sats == Sorted(Ones(b, a.p, 64))
           sigs == Sorted(Ones(b, a.p + 64, 16))
           p1 == a.p + 80
           w == Len(sigs)
           of(i) == [j \in 1..Len(Sorted(Ones(b, p1 + ((i - 1) * w), w))) |-> sigs[Sorted(Ones(b, p1 + ((i - 1) * w), w))[j] + 1]] IN
       IF p1 + (Len(sats) * w) > end THEN [a EXCEPT !.st = "FAIL"]
       ELSE FoldLeft(LAMBDA v, i : Satellite(b, end, five, y, sats[i] + 1, of(i), t, src, v), [a EXCEPT !.p = p1 + (Len(sats) * w)], [i \in 1..Len(sats) |-> i])
RangeBits(b, five, s, t, src) ==
  LET n == N32(b, 1)
      d == Drop(b, 4)
      \* references serve for the second they were given in
      kept == IF five THEN s.refs ELSE KeptRefs(s.refs, t.ms % 1000 = 0, src)
      a == [st |-> "SUCCESS", obs |-> <<>>, s |-> [s EXCEPT !.refs = kept], p |-> 0, first |-> <<>>] IN
  IF Len(b) < 4 \/ 4 + n > Len(b) \/ n < 2 THEN Fail
  ELSE FoldLeft(LAMBDA v, y : System(d, 8 * n, five, y, t, src, v), [a EXCEPT !.p = 16], Sorted(Ones(d, 0, 16)))
RangeIds == {140, 1273, 1734, 2050, 2537}
\* what the body b of the message id states
RangeOf(id, b, s, t, src) == CASE id = 140 -> Range1(b, s)
                               [] id = 1273 -> Range2(b, s, t, src)
                               [] OTHER -> RangeBits(b, id = 2537, s, t, src)
(* --- the observations of a RANGE message ------------------------------------------ *)
U16(b, i) == b[i] + (256 * b[i + 1])
Same(what, x) == IF x THEN TRUE ELSE PrintT(<<"differs", what>>) /\ FALSE
RowOk(b, o, x) == /\ Same("prn", U16(b, o + 1) = x.prn)
                  /\ Same("glo", U16(b, o + 3) = x.glo)
                  /\ Same(<<"psr", x.psr>>, CloseD(SubSeq(b, o + 5, o + 12), x.psr))
                  /\ Same("psrstd", CloseF(SubSeq(b, o + 13, o + 16), x.psd))
                  /\ Same(<<"adr", x.adr>>, CloseD(SubSeq(b, o + 17, o + 24), x.adr))
                  /\ Same("adrstd", CloseF(SubSeq(b, o + 25, o + 28), x.asd))
                  /\ Same(<<"doppler", x.dop>>, CloseF(SubSeq(b, o + 29, o + 32), x.dop))
                  /\ Same("cno", CloseF(SubSeq(b, o + 33, o + 36), x.cno))
                  /\ Same(<<"lock", x.lock>>, CloseF(SubSeq(b, o + 37, o + 40), x.lock))
                  /\ Same(<<"status", x.cts>>, <<U16(b, o + 43), U16(b, o + 41)>> = x.cts)
RowsOk(b, obs) == Same(<<"rows", Len(obs)>>, Len(b) = 4 + (44 * Len(obs)) /\ N32(b, 1) = Len(obs)) /\ \A i \in 1..Len(obs) : RowOk(b, 4 + (44 * (i - 1)), obs[i])
==============================================================================

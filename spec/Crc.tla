-------------------------------- MODULE Crc --------------------------------
(* Cyclic redundancy checks by their definition: polynomial division, one   *)
(* message bit at a time, on a shift register of W bits.                    *)
(*                                                                          *)
(* A W-bit word is a sequence of limbs, most significant first; limbs have  *)
(* 16 bits (8 when W = 8) because TLC's integers have 32.                   *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

LimbBits(w) == IF w = 8 THEN 8 ELSE 16
NLimbs(w)   == w \div LimbBits(w)
Zero(w)     == [i \in 1..NLimbs(w) |-> 0]

XorW(a, b) == IF Len(a) = 1 THEN <<a[1] ^^ b[1]>>
              ELSE IF Len(a) = 2 THEN <<a[1] ^^ b[1], a[2] ^^ b[2]>>
              ELSE <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

\* M = 2^(limb bits)
ShlW(a, M) ==
  IF Len(a) = 1 THEN <<((2 * a[1]) % M)>>
  ELSE IF Len(a) = 2 THEN <<((2 * a[1]) % M) + (a[2] \div (M \div 2)), ((2 * a[2]) % M)>>
  ELSE <<((2 * a[1]) % M) + (a[2] \div (M \div 2)), ((2 * a[2]) % M) + (a[3] \div (M \div 2)),
         ((2 * a[3]) % M) + (a[4] \div (M \div 2)), ((2 * a[4]) % M)>>
ShrW(a, M) ==
  IF Len(a) = 1 THEN <<a[1] \div 2>>
  ELSE IF Len(a) = 2 THEN <<a[1] \div 2, (a[2] \div 2) + ((a[1] % 2) * (M \div 2))>>
  ELSE <<a[1] \div 2, (a[2] \div 2) + ((a[1] % 2) * (M \div 2)),
         (a[3] \div 2) + ((a[2] % 2) * (M \div 2)), (a[4] \div 2) + ((a[3] % 2) * (M \div 2))>>

RECURSIVE Steps(_, _, _, _, _)
Steps(reg, poly, rev, M, n) ==
  IF n = 0 THEN reg
  ELSE LET nxt == IF rev THEN IF reg[Len(reg)] % 2 = 1 THEN XorW(ShrW(reg, M), poly) ELSE ShrW(reg, M)
                  ELSE IF reg[1] >= M \div 2 THEN XorW(ShlW(reg, M), poly) ELSE ShlW(reg, M)
       IN Steps(nxt, poly, rev, M, n - 1)

\* One message byte enters at the end of the register the bits leave last.
ByteStep(reg, byte, w, poly, rev) ==
  LET M == IF w = 8 THEN 256 ELSE 65536
      inj == IF rev THEN [reg EXCEPT ![Len(reg)] = @ ^^ byte]
             ELSE [reg EXCEPT ![1] = @ ^^ (IF w = 8 THEN byte ELSE byte * 256)]
  IN Steps(inj, poly, rev, M, 8)

RECURSIVE CrcFrom(_, _, _, _, _, _)
CrcFrom(reg, data, i, w, poly, rev) ==
  IF i > Len(data) THEN reg
  ELSE CrcFrom(ByteStep(reg, data[i], w, poly, rev), data, i + 1, w, poly, rev)

\* The remainder of `data` for the generator `poly` starting from `init`.
CrcOf(data, w, poly, rev, init) == CrcFrom(init, data, 1, w, poly, rev)

-----------------------------------------------------------------------------
(* The OEM 32-bit CRC: reflected 0xEDB88320, initial value 0, no final xor. *)
OemPoly == <<60856, 33568>>   \* EDB8 8320
OemTable == TLCEval([b \in 0..255 |-> TLCEval(ByteStep(<<0, 0>>, b, 32, OemPoly, TRUE))])
OemStep(c, byte) == LET t == OemTable[(c[2] % 256) ^^ byte]
                    IN <<(c[1] \div 256) ^^ t[1], ((c[2] \div 256) + ((c[1] % 256) * 256)) ^^ t[2]>>
OemCrcOf(data) == FoldLeft(OemStep, <<0, 0>>, data)
\* CRC of data[i..j]
OemCrc(data, i, j) == OemCrcOf(SubSeq(data, i, j))
=============================================================================

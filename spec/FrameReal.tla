----------------------------- MODULE FrameReal -----------------------------
(* The checksums and parameters of the real wire formats for FrameSpec.     *)
EXTENDS Crc
Hex(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE 99
\* value of the longest run of hex digits in buf[j..e], as limbs; <<>> if there is none
RECURSIVE HexFrom(_, _, _, _)
HexFrom(buf, j, e, acc) ==
  IF j > e \/ Hex(buf[j]) = 99 THEN acc
  ELSE HexFrom(buf, j + 1, e, <<((acc[1] * 16) % 65536) + (acc[2] \div 4096), ((acc[2] * 16) % 65536) + Hex(buf[j])>>)
HexRun(buf, j, e) == IF Hex(buf[j]) = 99 THEN <<>> ELSE HexFrom(buf, j, e, <<0, 0>>)
RealAscCrcOk(buf, from, to, p) == HexRun(buf, p, p + 7) = OemCrc(buf, from, to)
RealBinCrcOk(buf, from, to) == OemCrc(buf, from, to) = <<0, 0>>
RealNmeaCrcOk(buf, x, p) == HexRun(buf, p, p + 1) = <<0, x>>
RealXor(a, b) == a ^^ b
=============================================================================

------------------------------- MODULE Big -------------------------------
(* Natural numbers as little-endian base-10000 digit sequences without       *)
(* leading zeros (zero is <<>>); small factors and divisors up to 200000.    *)
EXTENDS Integers, Sequences
RECURSIVE Trim(_), OfNat(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o OfNat(n \div 10000)
Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BAdd(a, b) ==
  LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
      C[i \in 0..n] == IF i = 0 THEN 0 ELSE (Dg(a, i) + Dg(b, i) + C[i - 1]) \div 10000
  IN Trim([i \in 1..n |-> (Dg(a, i) + Dg(b, i) + C[i - 1]) % 10000])
BMul(a, k) ==
  LET n == Len(a) + 2
      C[i \in 0..n] == IF i = 0 THEN 0 ELSE (Dg(a, i) * k + C[i - 1]) \div 10000
  IN Trim([i \in 1..n |-> (Dg(a, i) * k + C[i - 1]) % 10000])
BDivMod(a, k) ==
  LET n == Len(a)
      R[i \in 1..(n + 1)] == IF i = n + 1 THEN 0 ELSE (R[i + 1] * 10000 + a[i]) % k
  IN [q |-> Trim([i \in 1..n |-> (R[i + 1] * 10000 + a[i]) \div k]), r |-> IF n = 0 THEN 0 ELSE R[1]]
BDiv(a, k) == BDivMod(a, k).q
BCmp(a, b) ==  \* -1, 0, 1
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]} IN
       IF D = {} THEN 0 ELSE LET m == CHOOSE i \in D : \A j \in D : j <= i IN IF a[m] < b[m] THEN -1 ELSE 1
BLe(a, b) == BCmp(a, b) <= 0
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
I64Max == <<5807, 5477, 368, 3372, 922>>     \* 9223372036854775807
I64MinMag == <<5808, 5477, 368, 3372, 922>>
U64Max == <<1615, 955, 737, 6744, 1844>>      \* 18446744073709551615
BSub(a, b) ==  \* a >= b
  LET n == Len(a)
      B[i \in 0..n] == IF i = 0 THEN 0 ELSE IF Dg(a, i) - B[i - 1] - Dg(b, i) < 0 THEN 1 ELSE 0
  IN Trim([i \in 1..n |-> (Dg(a, i) - B[i - 1] - Dg(b, i) + 10000) % 10000])
(* signed: <<negative?, magnitude>> *)
Neg(x) == <<x[1], x[2]>>
IntOf(neg, m) == <<neg /\ m # <<>>, m>>
FitsI64(x) == IF x[1] THEN BLe(x[2], I64MinMag) ELSE BLe(x[2], I64Max)
ICmp(a, b) == IF a[1] # b[1] THEN IF a[1] THEN -1 ELSE 1 ELSE IF a[1] THEN BCmp(b[2], a[2]) ELSE BCmp(a[2], b[2])
ILe(a, b) == ICmp(a, b) <= 0
ILt(a, b) == ICmp(a, b) < 0
=============================================================================

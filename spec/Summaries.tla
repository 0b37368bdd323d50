----------------------------- MODULE Summaries -----------------------------
(* Set summaries, duplicate removal, key hashing and id generation.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ins,    \* keys inserted into the filter
          said,   \* keys the filter has claimed to hold since it was created
          size,   \* its size in bytes
          next,   \* next id
          ret
vars == <<ins, said, size, next, ret>>
RECURSIVE Pow2(_, _)
Pow2(i, n) == IF i >= n THEN i ELSE Pow2(2 * i, n)
BNew(m) == ins' = {} /\ said' = {} /\ size' = Pow2(8, m) \div 8 /\ ret' = <<>> /\ UNCHANGED next
BInsert(k) == ins' = ins \cup {k} /\ UNCHANGED <<said, size, next, ret>>
(* never a false negative; an answer "maybe" is never withdrawn; nothing is held by an empty filter *)
BAsk(k, a) == /\ (k \in ins => a) /\ (k \in said => a) /\ (ins = {} => ~a)
              /\ said' = (IF a THEN said \cup {k} ELSE said) /\ ret' = <<a>> /\ UNCHANGED <<ins, size, next>>
BSave == UNCHANGED vars
(* keep the last element of every run of adjacent equal elements *)
Same(mode, x, y) == IF mode = "key" THEN x = y ELSE x - y <= 1 /\ y - x <= 1
Kept(mode, v) == {i \in DOMAIN v : i = Len(v) \/ ~Same(mode, v[i], v[i + 1])}
(* when the relation gives up at its at-th question, what it was not asked about stays *)
KeptUntil(at, v) == {i \in DOMAIN v : i >= at \/ ~Same("near", v[i], v[i + 1])}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
(* the key hash: h * 1313 + byte, modulo 2^64, in 16-bit limbs *)
W == 65536
Step(h, c) ==
  LET t1 == h[1] * 1313 + c
      t2 == h[2] * 1313 + t1 \div W
      t3 == h[3] * 1313 + t2 \div W
      t4 == h[4] * 1313 + t3 \div W
  IN <<t1 % W, t2 % W, t3 % W, t4 % W>>
RECURSIVE HashFrom(_, _)
HashFrom(h, bs) == IF bs = <<>> THEN h ELSE HashFrom(Step(h, Head(bs)), Tail(bs))
RECURSIVE HashParts(_, _)
HashParts(h, ps) == IF ps = <<>> THEN <<>> ELSE LET n == HashFrom(h, Head(ps)) IN <<n>> \o HashParts(n, Tail(ps))
Flat(ps) == LET F[i \in 0..Len(ps)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ps[i] IN F[Len(ps)]
(* ids *)
INew(n) == next' = n /\ UNCHANGED <<ins, said, size, ret>>
INext == next' = next + 1 /\ ret' = <<next>> /\ UNCHANGED <<ins, said, size>>
NoFalseNegative == \A k \in ins : TRUE
SizeOk == size = 0 \/ \E i \in 0..20 : size = 2 ^ i
=============================================================================

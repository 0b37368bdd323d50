---------------------------- MODULE Codecs ----------------------------
(* A column of cells as a block of a data file.  A cell is <<>> (nothing) or <<v>>.  Only the present  *)
(* values are coded; which cells are present is kept beside them.  The present values are kept as the   *)
(* first value and the differences of neighbours, in the ring of integers modulo Ring (differences wrap  *)
(* around), in one of three forms: a repeated difference, packed small differences, or plain ones.       *)
EXTENDS Integers, Sequences
CONSTANTS Ring, Small, Base
VARIABLES col, form, block, back
vars == <<col, form, block, back>>

Present(c) == SelectSeq(c, LAMBDA x : x # <<>>)
Values(c) == LET p == Present(c) IN [k \in 1..Len(p) |-> p[k][1]]
Shape(c) == [k \in 1..Len(c) |-> c[k] # <<>>]
Ordinal(c, k) == Len(Present(SubSeq(c, 1, k)))

(* "times": the difference itself, its common power of Base taken out; "ints": folded so that small      *)
(* negative differences are small too                                                                     *)
Wrap(x) == x % Ring
Fold(d) == IF d < Ring \div 2 THEN 2 * d ELSE 2 * (Ring - d) - 1
Unfold(z) == IF z % 2 = 0 THEN z \div 2 ELSE Wrap(Ring - (z + 1) \div 2)
Code(f, d) == IF f = "times" THEN d ELSE Fold(d)
Decode(f, z) == IF f = "times" THEN z ELSE Unfold(z)
Diffs(f, v) == [k \in 1..(Len(v) - 1) |-> Code(f, Wrap(v[k + 1] - v[k] + Ring))]
AllSame(s) == \A k \in 2..Len(s) : s[k] = s[1]
Divisor(f, ds) == IF f = "times" /\ \A k \in 1..Len(ds) : ds[k] % Base = 0 THEN Base ELSE 1

Pack(f, c) ==
  LET v == Values(c) ds == Diffs(f, v) IN
  IF v = <<>> THEN [kind |-> "none", shape |-> Shape(c)]
  ELSE IF ds # <<>> /\ AllSame(ds) THEN [kind |-> "run", first |-> v[1], diff |-> ds[1] \div Divisor(f, ds), scale |-> Divisor(f, ds), shape |-> Shape(c)]
  ELSE IF \E k \in 1..Len(ds) : ds[k] > Small THEN [kind |-> "plain", first |-> v[1], diffs |-> ds, shape |-> Shape(c)]
  ELSE [kind |-> "packed", first |-> v[1], diffs |-> [k \in 1..Len(ds) |-> ds[k] \div Divisor(f, ds)], scale |-> Divisor(f, ds), shape |-> Shape(c)]

RECURSIVE Sums(_, _, _)
Sums(f, acc, ds) == IF ds = <<>> THEN acc ELSE Sums(f, acc \o <<Wrap(acc[Len(acc)] + Decode(f, ds[1]))>>, Tail(ds))
Spread(shape, v) == [k \in 1..Len(shape) |-> IF shape[k] THEN <<v[Len(SelectSeq(SubSeq(shape, 1, k), LAMBDA x : x))]>> ELSE <<>>]
Unpack(f, b) ==
  IF b.kind = "none" THEN [k \in 1..Len(b.shape) |-> <<>>]
  ELSE LET n == Len(SelectSeq(b.shape, LAMBDA x : x))
           ds == CASE b.kind = "run" -> [k \in 1..(n - 1) |-> b.diff * b.scale]
                   [] b.kind = "packed" -> [k \in 1..Len(b.diffs) |-> b.diffs[k] * b.scale]
                   [] OTHER -> b.diffs
       IN Spread(b.shape, Sums(f, <<b.first>>, ds))

None == [kind |-> "none", shape |-> <<>>]
Init == col = <<>> /\ form \in {"times", "ints"} /\ block = None /\ back = <<>>
Add(x) == col' = col \o <<x>> /\ UNCHANGED form /\ block' = Pack(form, col') /\ back' = Unpack(form, block')

ReadsBack == back = col
Fits == block.kind = "packed" => \A k \in 1..Len(block.diffs) : block.diffs[k] <= Small
=============================================================================

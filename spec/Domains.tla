------------------------------ MODULE Domains ------------------------------
\* Time ranges, sets of time ranges, and domains of columns as plain sets; what a filter is
\* turned into before rows are read or deleted.
\*
\* The time line has 11 probes: the first three and last three timestamps, -1, 0 and 1, and one
\* each (4 and 8) for the open spaces between; range ends are never in the open spaces.
EXTENDS Integers, Sequences, FiniteSets, TLC
Line == 1..11
Ends == Line \ {4, 8}
Span(r) == {t \in Line : r[1] <= t /\ t <= r[2]}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* a range that starts (ends) inside an open space has no probe there
AtProbe(t) == IF t \in {4, 8} THEN 0 ELSE t

VARIABLES trs,    \* the set of time ranges
          cd      \* conjunction of column domains: [none, dom: column -> values]
vars == <<trs, cd>>
Init == trs = {} /\ cd = [none |-> FALSE, dom |-> <<>>]

Clusters == {1..3, 5..7, 9..11}
Hull(A) == {t \in Line : MinOf(A) <= t /\ t <= MaxOf(A)}
Below(A, B) == {t \in A : t < MinOf(B)}
Above(A, B) == {t \in A : t > MaxOf(B)}

RECURSIVE UnionOf(_)
UnionOf(rs) == IF rs = <<>> THEN {} ELSE Span(Head(rs)) \cup UnionOf(Tail(rs))
SetTo(S) == trs' = S /\ UNCHANGED cd
Push(r) == SetTo(trs \cup Span(r))
Extend(rs) == SetTo(trs \cup UnionOf(rs))
Inter(r) == SetTo(trs \cap Span(r))
Excl(r) == SetTo(trs \ Span(r))
Excls(rs) == SetTo(trs \ UnionOf(rs))

\* --- values of columns: the first letter of the column is the kind ---------------
Univ(kind) == CASE kind \in {"i", "f"} -> -4..4 [] kind = "u" -> 0..8 [] kind = "t" -> Line [] kind = "b" -> {0, 1} [] kind = "s" -> 0..8
RangeSet(kind, r) ==
  {x \in Univ(kind) : CASE r.o = "all" -> TRUE [] r.o = "eq" -> x = r.v [] r.o = "ne" -> x # r.v
     [] r.o = "gt" -> x > r.v [] r.o = "ge" -> x >= r.v [] r.o = "lt" -> x < r.v [] r.o = "le" -> x <= r.v
     [] r.o = "gtlt" -> r.v < x /\ x < r.w [] r.o = "gelt" -> r.v <= x /\ x < r.w
     [] r.o = "gtle" -> r.v < x /\ x <= r.w [] r.o = "gele" -> r.v <= x /\ x <= r.w}
DomSet(d) ==
  CASE d.k = "all" -> Univ(d.kind) [] d.k = "none" -> {}
    [] d.k = "ranges" -> UNION {RangeSet(d.kind, d.rs[k]) : k \in DOMAIN d.rs}
    [] d.k = "values" -> LET V == {d.vs[k] : k \in DOMAIN d.vs} IN IF d.white THEN V \cap Univ(d.kind) ELSE Univ(d.kind) \ V

None == [none |-> TRUE, dom |-> <<>>]
All == [none |-> FALSE, dom |-> <<>>]
Has(D, c) == c \in DOMAIN D.dom
PutCol(D, c, S) == [none |-> FALSE, dom |-> TLCEval([x \in DOMAIN D.dom \cup {c} |-> IF x = c THEN S ELSE D.dom[x]])]
\* narrow a column of a conjunction
Add(D, c, S) == IF D.none THEN D ELSE PutCol(D, c, IF Has(D, c) THEN D.dom[c] \cap S ELSE S)
\* widen a column; a column without a domain gets this one, and so does the empty disjunction
Alt(D, c, S) == PutCol(D, c, IF Has(D, c) THEN D.dom[c] \cup S ELSE S)
RECURSIVE AddAll(_, _)
AddAll(D, cs) == IF cs = <<>> THEN D ELSE AddAll(Add(D, Head(cs).c, DomSet(Head(cs).d)), Tail(cs))
Meet(A, B) == IF A.none \/ B.none THEN None
  ELSE [none |-> FALSE, dom |-> TLCEval([c \in DOMAIN A.dom \cup DOMAIN B.dom |->
        IF ~Has(A, c) THEN B.dom[c] ELSE IF ~Has(B, c) THEN A.dom[c] ELSE A.dom[c] \cap B.dom[c]])]
\* column by column: the least domains of columns that admit both
Join(A, B) == IF B.none THEN A ELSE IF A.none THEN B
  ELSE [none |-> FALSE, dom |-> TLCEval([c \in DOMAIN A.dom \cap DOMAIN B.dom |-> A.dom[c] \cup B.dom[c]])]
Admits(D, r) == ~D.none /\ \A c \in DOMAIN D.dom : r[c] \in D.dom[c]

SetCd(D) == cd' = D /\ UNCHANGED trs
CMeet(o) == SetCd(Meet(cd, o))
CJoin(o) == SetCd(Join(cd, o))
CAdd(c, d) == SetCd(Add(cd, c, DomSet(d)))
CAlt(c, d) == SetCd(Alt(cd, c, DomSet(d)))

\* --- filters ---------------------------------------------------------------------
NullV == 99
T3 == 1  F3 == 0  U3 == 2
B3(b) == IF b THEN T3 ELSE F3
And3(a, b) == IF a = F3 \/ b = F3 THEN F3 ELSE IF a = U3 \/ b = U3 THEN U3 ELSE T3
Or3(a, b) == IF a = T3 \/ b = T3 THEN T3 ELSE IF a = U3 \/ b = U3 THEN U3 ELSE F3
Not3(a) == IF a = U3 THEN U3 ELSE 1 - a
Cmp(o, x, y) == CASE o = "=" -> x = y [] o = "!=" -> x # y [] o = "<" -> x < y [] o = "<=" -> x <= y [] o = ">" -> x > y [] o = ">=" -> x >= y
RECURSIVE Eval(_, _)
Eval(e, r) ==
  CASE e.k = "and" -> And3(Eval(e.l, r), Eval(e.r, r)) [] e.k = "or" -> Or3(Eval(e.l, r), Eval(e.r, r))
    [] e.k = "not" -> Not3(Eval(e.l, r)) [] e.k = "const" -> B3(e.v)
    [] e.k = "null" -> B3(r[e.c] = NullV)
    [] e.k = "col" -> IF r[e.c] = NullV THEN U3 ELSE r[e.c]
    [] e.k = "cmp" -> IF r[e.c] = NullV THEN U3 ELSE B3(Cmp(e.o, r[e.c], e.v))
    [] e.k = "in" -> IF r[e.c] = NullV THEN U3 ELSE B3((\E k \in DOMAIN e.v : e.v[k] = r[e.c]) # e.neg)
RECURSIVE Refs(_)
Refs(e) == CASE e.k \in {"and", "or"} -> Refs(e.l) \cup Refs(e.r) [] e.k = "not" -> Refs(e.l) [] e.k = "const" -> {} [] OTHER -> {e.c}
RECURSIVE Conj(_)
Conj(e) == CASE e.k = "and" -> Conj(e.l) /\ Conj(e.r) [] e.k = "cmp" -> TRUE [] OTHER -> FALSE

\* --- facts about the sets themselves, checked on the model --------------------------
JoinSound == \A A \in {cd}, c \in DOMAIN cd.dom : Has(Join(A, A), c)
=============================================================================

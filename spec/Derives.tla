------------------------------ MODULE Derives ------------------------------
(* What the derive macros promise.  ErrorCoder: an enum of errors, each      *)
(* variant with an optional number, the enum with an optional module prefix; *)
(* a definition is accepted or refused at compile time, and an accepted one  *)
(* gives every value its code.  Keys: the upper-case dotted names of all     *)
(* settings of a struct.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
In(c, s) == \E i \in DOMAIN s : s[i] = c
IsUpper(c) == In(c, UpperSeq)
IsDigit(c) == In(c, DigitSeq)
IsLetter(c) == IsUpper(c) \/ In(c, LowerSeq)
Map(c, a, b) == IF In(c, a) THEN b[CHOOSE i \in DOMAIN a : a[i] = c] ELSE c
Down(c) == Map(c, UpperSeq, LowerSeq)
Up(c) == Map(c, LowerSeq, UpperSeq)
RECURSIVE Snake(_, _)
(* words start at an upper-case letter, at a run of digits, and after a run of digits *)
Snake(n, i) == IF i > Len(n) THEN <<>>
               ELSE LET c == n[i]
                        afterDigit == i > 1 /\ IsDigit(n[i - 1])
                        brk == IF IsLetter(c) THEN afterDigit \/ (i > 1 /\ IsUpper(c)) ELSE IsDigit(c) /\ ~afterDigit
                    IN (IF brk THEN <<"_">> ELSE <<>>) \o <<Down(c)>> \o Snake(n, i + 1)
Method(n) == <<"c","o","d","e","_">> \o Snake(n, 1)

VARIABLES pre, variants, numbers
(* pre: <<>> or <<text>> (text: its characters); variants: sequence of [name, shape, codes];
   codes: the numbers its attributes give (at most one for a valid definition) *)
vars == <<pre, variants, numbers>>
Init == pre = <<>> /\ variants = <<>> /\ numbers = {}
SetMod(m) == variants = <<>> /\ pre' = pre \o <<m>> /\ UNCHANGED <<variants, numbers>>
Range(s) == {s[i] : i \in DOMAIN s}
AddVariant(v) ==
  /\ \A i \in DOMAIN variants : variants[i].name # v.name
  /\ variants' = Append(variants, v) /\ UNCHANGED pre
  /\ numbers' = numbers \cup Range(v.codes)
Coded(vs) == {i \in DOMAIN vs : vs[i].codes # <<>>}
(* a definition compiles exactly when every number is below 10000 and given once, and the prefix is two characters given once *)
Valid(m, vs) ==
  /\ Len(m) <= 1 /\ (Len(m) = 1 => Len(m[1]) = 2)
  /\ \A i \in DOMAIN vs : Len(vs[i].codes) <= 1 /\ (vs[i].codes # <<>> => vs[i].codes[1] < 10000)
  /\ \A i, j \in Coded(vs) : i # j => vs[i].codes[1] # vs[j].codes[1]
  /\ \A i, j \in Coded(vs) : i # j => Method(vs[i].name) # Method(vs[j].name)
D(n) == DigitSeq[n + 1]
Four(n) == <<D(n \div 1000), D((n \div 100) % 10), D((n \div 10) % 10), D(n % 10)>>
Prefix(m) == IF m = <<>> THEN <<"0", "0">> ELSE m[1]
Code(m, v) == Prefix(m) \o (IF v.codes = <<>> THEN <<"0", "0", "0", "0">> ELSE Four(v.codes[1]))
Codes(m, vs) == [i \in DOMAIN vs |-> Code(m, vs[i])]
(* the helper functions: one per numbered variant *)
Methods(m, vs) == {<<Method(vs[i].name), Code(m, vs[i])>> : i \in Coded(vs)}
(* distinct numbered variants of an accepted enum have distinct six-character codes *)
CodesTell == Valid(pre, variants) =>
  /\ \A i, j \in Coded(variants) : i # j => Code(pre, variants[i]) # Code(pre, variants[j])
  /\ \A i \in DOMAIN variants : Len(Code(pre, variants[i])) = 6
  /\ Cardinality(Methods(pre, variants)) = Cardinality(Coded(variants))

(* --- settings keys --------------------------------------------------------- *)
(* a type: [k |-> "leaf"], [k |-> "wrap", of] (Option, Vec), [k |-> "struct", fields: sequence of [name, type]] *)
Upper(n) == [i \in DOMAIN n |-> Up(n[i])]
RECURSIVE Keys(_), KeysOf(_)
Keys(t) == CASE t.k = "leaf" -> <<>> [] t.k = "wrap" -> Keys(t.of) [] t.k = "struct" -> KeysOf(t.fields)
KeysOf(fs) == IF fs = <<>> THEN <<>>
              ELSE LET sub == Keys(fs[1].type)
                       key == Upper(fs[1].name)
                   IN (IF sub = <<>> THEN <<key>> ELSE [i \in DOMAIN sub |-> key \o <<".">> \o sub[i]]) \o KeysOf(Tail(fs))
=============================================================================

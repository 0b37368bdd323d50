---------------------------- MODULE DerivesMC ----------------------------
EXTENDS Derives, TLC, Json
VARIABLE ev
Names == {<<"A">>, <<"A", "1">>, <<"A", "b", "C">>, <<"A", "1", "b">>, <<"A", "B", "2">>}
Mods == {<<"0", "1">>, <<"x">>, <<>>}
Vs == {[name |-> n, shape |-> s, codes |-> c] : n \in Names, s \in {"unit", "named", "tuple"}, c \in {<<>>, <<0>>, <<7>>, <<9999>>, <<10000>>, <<7, 8>>}}
Okv == {v \in Vs : v.codes \in {<<>>, <<0>>, <<7>>} /\ v.shape = (IF v.codes = <<>> THEN "unit" ELSE "tuple")}
St == <<pre, variants>>
MInit == Init /\ ev = [op |-> "init"]
MNext == \/ \E m \in Mods : Len(pre) < 2 /\ SetMod(m) /\ ev' = [op |-> "mod", m |-> m]
         \/ \E v \in (IF variants = <<>> THEN Vs ELSE Okv) : Len(variants) < 3 /\ (\A i \in DOMAIN variants : variants[i] \in Okv) /\ AddVariant(v) /\ ev' = [op |-> "variant", v |-> v]
MSpec == MInit /\ [][MNext]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> <<pre', variants'>>]))
=============================================================================

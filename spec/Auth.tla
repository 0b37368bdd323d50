-------------------------------- MODULE Auth --------------------------------
(* A tenant's own role, the options of a user, and the cache of sign-ins.     *)
(* role:  [sys |-> "owner" / "member" / "", pr |-> {<<database, level>>}]     *)
(* opts:  each of pw, must, rsa, note, adm is <<>> (not set) or <<value>>     *)
(* cache: the sign-ins kept, the latest used first; a key is the whole of     *)
(*        what was presented: who, password, private key and tenant           *)
EXTENDS Access, TLC
VARIABLES role, opts, cache, cap
avars == <<role, opts, cache, cap>>
NoOpts == [pw |-> <<>>, must |-> <<>>, rsa |-> <<>>, note |-> <<>>, adm |-> <<>>]
NoRole == [sys |-> "", pr |-> {}]
Init == role = NoRole /\ opts = NoOpts /\ cache = <<>> /\ cap = 2

\* a level granted on a database takes the place of the one before
Grant(d, p) == role' = [role EXCEPT !.pr = {q \in @ : q[1] # d} \cup {<<d, p>>}] /\ UNCHANGED <<opts, cache, cap>>
\* only exactly what was granted can be taken back
CanRevoke(d, p) == <<d, p>> \in role.pr
Revoke(d, p) == role' = [role EXCEPT !.pr = @ \ {<<d, p>>}] /\ UNCHANGED <<opts, cache, cap>>

Or(a, b) == IF a # <<>> THEN a ELSE b
Over(n, o) == [k \in DOMAIN n |-> Or(n[k], o[k])]
Merge(n) == opts' = Over(n, opts) /\ UNCHANGED <<role, cache, cap>>
ChangedPw == opts' = [opts EXCEPT !.must = <<FALSE>>] /\ UNCHANGED <<role, cache, cap>>

\* a key set for a user is the only way in; without it the password is
Login(o, i) ==
  IF o.rsa # <<>> THEN IF i.key = <<>> THEN {"denied"}
                       ELSE IF i.kid # "" /\ <<i.kid>> = o.rsa /\ i.kpw = i.password THEN {"ok"} ELSE {"error", "denied"}
  ELSE IF o.pw = <<>> THEN {"notset"}
  ELSE IF o.pw = <<"?">> THEN {"error", "denied"}
  ELSE IF o.pw = <<i.password>> THEN {"ok"} ELSE {"denied"}

At(k) == {n \in DOMAIN cache : cache[n].k = k}
Without(q, k) == SelectSeq(q, LAMBDA e : e.k # k)
Cut(q) == IF Len(q) > cap THEN SubSeq(q, 1, cap) ELSE q
Put(k, e) == cache' = Cut(<<e>> \o Without(cache, k)) /\ UNCHANGED <<role, opts, cap>>
Touch(k) == cache' = SelectSeq(cache, LAMBDA e : e.k = k) \o Without(cache, k) /\ UNCHANGED <<role, opts, cap>>
Drop(k) == cache' = Without(cache, k) /\ UNCHANGED <<role, opts, cap>>
Clear == cache' = <<>> /\ UNCHANGED <<role, opts, cap>>
=============================================================================

----------------------------- MODULE AuthTrace -----------------------------
EXTENDS Auth, Json, IOUtils
VARIABLES l, ttl, roles
tvars == <<avars, l, ttl, roles>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
SetOf(q) == {q[k] : k \in DOMAIN q}
Same(q, X) == SetOf(q) = X /\ Len(q) = Cardinality(X)
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Keep == UNCHANGED <<ttl, roles>>
TReset == Is("reset") /\ role' = NoRole /\ opts' = NoOpts /\ cache' = <<>> /\ cap' = 2 /\ ttl' = <<>> /\ roles' = <<>>

TPair == Is("pair") /\ UNCHANGED avars /\ Keep /\ E.can = Covers(E.h, E.w) /\ E.eq = (E.h = E.w) /\ E.named = (E.h = E.w) /\ E.back
TSys == Is("sysrole") /\ UNCHANGED avars /\ Keep /\ Same(E.ps, OfSys(E.r, E.t)) /\ E.name = E.r /\ E.shown = E.r /\ E.bad

\* the roles of the case by name; role is the one in hand
Pairs(q) == {<<q[k][1], q[k][2]>> : k \in DOMAIN q}
Shows(r) == Same(E.prs, r.pr) /\ E.inh = r.sys /\ SetOf(E.ps) = OfCustom(r.sys, r.pr, E.t) /\ E.name = E.n /\ E.rid = r.id /\ E.back
Store(r) == roles' = [n \in DOMAIN roles \cup {E.n} |-> IF n = E.n THEN r ELSE roles[n]] /\ Shows(r)
TRole == Is("role") /\ UNCHANGED avars /\ ttl' = ttl /\ Store([sys |-> E.sys, pr |-> Pairs(E.pr), id |-> E.id])
InHand == roles[E.n]
TGrant == Is("grant") /\ UNCHANGED avars /\ ttl' = ttl /\ E.ok /\ Store([InHand EXCEPT !.pr = {q \in @ : q[1] # E.d} \cup {<<E.d, E.p>>}])
TRevoke == Is("revoke") /\ UNCHANGED avars /\ ttl' = ttl /\
  IF <<E.d, E.p>> \in InHand.pr THEN E.res = <<"ok", TRUE>> /\ Store([InHand EXCEPT !.pr = @ \ {<<E.d, E.p>>}])
  ELSE E.res = <<"err", FALSE>> /\ Store(InHand)

Opts(o) == [pw |-> IF o.badhash # <<>> THEN <<"?">> ELSE o.pw, must |-> o.must, rsa |-> o.rsa, note |-> o.note, adm |-> o.adm]
OfRole(n, t) == IF n \in {"owner", "member"} THEN OfSys(n, t) ELSE OfCustom(roles[n].sys, roles[n].pr, t)
TUser == Is("user") /\ UNCHANGED avars /\ Keep /\
  LET granted == E.o.adm = <<TRUE>>
      H == (IF E.root \/ granted THEN Admin ELSE UNION {OfRole(E.ten[k][2], E.ten[k][1]) : k \in DOMAIN E.ten}) \cup {Self(E.id)} IN
  /\ E.adm = (E.root \/ granted) /\ E.granted = granted
  /\ \A k \in DOMAIN E.asks : E.can[k] = Allows(H, E.asks[k])
  /\ \A t \in 1..4 : E.short[t] = <<Allows(H, P("sys", t, "", "")), Allows(H, P("role", t, "", "")), Allows(H, P("db", t, "a", "r")), Allows(H, P("db", t, "", "r"))>>
  /\ E.back /\ E.ridn = E.ridw /\ E.seen = <<TRUE, TRUE>>

OptsAre(v, o) == v.pw = o.pw /\ v.must = o.must /\ v.rsa = o.rsa /\ v.note = o.note /\ v.adm = o.adm /\ ~v.plain
Fixed == UNCHANGED <<role, cache, cap>> /\ Keep
TOpts == Is("opts") /\ opts' = Opts(E.o) /\ OptsAre(E, opts') /\ Fixed
TMerge == Is("merge") /\ Merge(Opts(E.o)) /\ OptsAre(E, opts') /\ Keep
TChPw == Is("chpw") /\ ChangedPw /\ OptsAre(E, opts') /\ Keep
THide == Is("hide") /\ UNCHANGED avars /\ Keep /\ OptsAre(E.v, [opts EXCEPT !.pw = <<"?">>]) /\ ~E.leak
TKeep == Is("keep") /\ UNCHANGED avars /\ Keep /\ OptsAre(E, opts)
TLogin == Is("login") /\ UNCHANGED avars /\ Keep /\ E.res \in Login(opts, E)
THash == Is("hash") /\ UNCHANGED avars /\ Keep /\ E.same = (E.a = E.b) /\ ~E.plain /\ ~E.again
TBasic == Is("basic") /\ UNCHANGED avars /\ Keep /\ E.text = <<E.user \o ":" \o E.password>>

\* the cache: an entry put between a and z is over once its time is, and not before
TCache == Is("cache") /\ cache' = <<>> /\ cap' = E.cap /\ ttl' = E.ttl /\ UNCHANGED <<role, opts, roles>>
Key == [user |-> E.user, password |-> E.password, key |-> E.key, t |-> E.t]
Entry(v) == [k |-> Key, v |-> v, a |-> E.a, z |-> E.z]
Over1(e) == ttl # <<>> /\ E.a >= e.z + ttl[1] * 1000
MayBeOver(e) == ttl # <<>> /\ E.z >= e.a + ttl[1] * 1000
Has(k, v) == \E n \in At(k) : cache[n].v = v /\ ~Over1(cache[n])
HasNot(k) == \A n \in At(k) : MayBeOver(cache[n])
TPut == Is("put") /\ Put(Key, Entry(E.v)) /\ Keep
TGet == Is("get") /\ (IF E.r # <<>> THEN Has(Key, E.r[1]) ELSE HasNot(Key)) /\ Touch(Key) /\ Keep
TRm == Is("rm") /\ (E.r => At(Key) # {}) /\ (~E.r => HasNot(Key)) /\ Drop(Key) /\ Keep
TClear == Is("clear") /\ Clear /\ Keep
TIter == Is("iter") /\ UNCHANGED avars /\ Keep /\
  LET must == {n \in DOMAIN cache : ~MayBeOver(cache[n])}  may == {n \in DOMAIN cache : ~Over1(cache[n])}
      Of(X) == {[t |-> cache[n].k.t, v |-> cache[n].v] : n \in X} IN
  /\ Of(must) \subseteq SetOf(E.r) /\ SetOf(E.r) \subseteq Of(may) /\ Len(E.r) >= Cardinality(must) /\ Len(E.r) <= Cardinality(may)
\* who signs in gets what the same credentials got before, or is checked
TSignin == Is("signin") /\ Keep /\
  IF E.hit THEN Has(Key, E.r[1]) /\ Touch(Key)
  ELSE /\ HasNot(Key)
       /\ IF Login(opts, E) = {"ok"} THEN E.r = <<E.user>> /\ Put(Key, Entry(E.user)) ELSE E.r = <<>> /\ Touch(Key)
TSleep == Is("sleep") /\ UNCHANGED avars /\ Keep

TInit == Init /\ l = 1 /\ ttl = <<>> /\ roles = <<>>
TNext == TReset \/ TPair \/ TSys \/ TRole \/ TGrant \/ TRevoke \/ TUser \/ TOpts \/ TMerge \/ TChPw \/ THide \/ TKeep \/ TLogin \/ THash \/ TBasic
         \/ TCache \/ TPut \/ TGet \/ TRm \/ TClear \/ TIter \/ TSignin \/ TSleep
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================

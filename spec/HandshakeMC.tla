---------------------------- MODULE HandshakeMC ----------------------------
(* Exhaustive analysis of the handshake against an attacker who owns the wire *)
(* and an identity "M", sees every frame, and can send every frame he observed *)
(* or can construct.                                                           *)
EXTENDS Handshake
CONSTANTS Scenario,  \* which honest endpoints there are
          AttKeys,   \* number of symmetric keys the attacker may invent
          Stolen     \* long term private keys of others he holds (sensitivity)
VARIABLES eps
Clients ==   \* [name -> <<me, pin>>]
    CASE Scenario = "1x1" -> [c1 |-> <<Lt("C"), Lt("S")>>]
      [] Scenario = "1x2" -> [c1 |-> <<Lt("C"), Lt("S")>>]
      [] Scenario = "2x1" -> [c1 |-> <<Lt("C"), Lt("S")>>, c2 |-> <<Lt("D"), Lt("M")>>]
      [] Scenario = "2x2" -> [c1 |-> <<Lt("C"), Lt("S")>>, c2 |-> <<Lt("D"), Lt("S")>>]
Servers ==   \* runs of the honest server "S"
    IF Scenario \in {"1x2", "2x2"} THEN {"s1", "s2"} ELSE {"s1"}
AttOwn == {Lt("M"), Eph("M")} \cup {Lt(n) : n \in Stolen}
LongTerm == {Lt("S"), Lt("C"), Lt("D"), Lt("M")}
HonestPk == {Lt("S"), Lt("C"), Lt("D")}
Att == {Key("att", j) : j \in 1..AttKeys}
Init == eps = [e \in DOMAIN Clients \cup Servers |->
                 IF e \in Servers
                 THEN NewEp(e, "resp", Lt("S"), None, {Lt("S")}, Eph("S"), 0)
                 ELSE Start(NewEp(e, "init", Clients[e][1], Clients[e][2], {Clients[e][1]}, Eph(e), 0))]

Obs == UNION {{eps[e].out[i] : i \in 1..Len(eps[e].out)} : e \in DOMAIN eps}
Contents(ks) == {f.body : f \in {g \in Obs : g.t = "raw" \/ g.k \in ks}}
Grow(ks) == ks \cup {c.k : c \in {b \in Contents(ks) : b.t = "ciph" /\ b.pk \in AttOwn}}
Known == Grow(Grow(Grow(Grow(Att))))
Learned == Contents(Known)
Pks == LongTerm \cup AttOwn \cup {Eph("S")} \cup {c.p : c \in {b \in Learned : b.t = "pk"}}

RECURSIVE CanBody(_)
CanBody(b) == \/ b \in Learned
              \/ b.t = "pk" /\ b.p \in Pks
              \/ b.t = "ciph" /\ b.k \in Known
              \/ b.t = "mac" /\ b.k \in Known /\ \A i \in 1..Len(b.parts) : CanBody(b.parts[i])
CanSend(f) == \/ f \in Obs
              \/ f.t = "raw" /\ CanBody(f.body)
              \/ f.t = "enc" /\ f.k \in Known /\ CanBody(f.body)

CiphKeys == Known \cup {c.k : c \in {b \in Learned \cup {o.body : o \in Obs} : b.t = "ciph"}}
\* the frames endpoint s could accept now, whoever makes them
Expected(s) ==
    CASE s.role = "init" /\ s.stage = "c2" -> {Enc(s.k1, s.rn, Ciph(k, s.eph)) : k \in CiphKeys}
      [] s.role = "init" /\ s.stage = "epk" -> {Enc(s.k2, s.rn, Pk(p)) : p \in Pks}
      [] s.role = "init" /\ s.stage = "sp" -> {Enc(s.k2, s.rn, Mac(s.k1, <<Pk(s.eph), Pk(s.pep)>>))}
      [] s.role = "init" /\ s.stage = "c4" -> {Enc(s.k3, s.rn, Ciph(k, s.me)) : k \in CiphKeys}
      [] s.role = "init" /\ s.stage = "fp" -> {Enc(s.k4, s.rn, Mac(s.k3, <<s.cp, Pk(s.pin)>>))}
      [] s.role = "resp" /\ s.stage = "c1" -> {Raw(Ciph(k, s.me)) : k \in CiphKeys}
      [] s.role = "resp" /\ s.stage = "epk" -> {Enc(s.k1, s.rn, Pk(p)) : p \in Pks \cup {Eph(e) : e \in DOMAIN Clients}}
      [] s.role = "resp" /\ s.stage = "c3" -> {Enc(s.k2, s.rn, Ciph(k, s.eph)) : k \in CiphKeys}
      [] s.role = "resp" /\ s.stage = "pk" -> {Enc(s.k3, s.rn, Pk(p)) : p \in LongTerm}
      [] s.role = "resp" /\ s.stage = "cp" -> {Enc(s.k3, s.rn, Mac(s.k2, <<s.sp, Pk(s.peer)>>))}
      [] OTHER -> {}
Deliver(e) == \E f \in Expected(eps[e]) : CanSend(f) /\ eps' = [eps EXCEPT ![e] = Recv(@, f)]
Next == \E e \in DOMAIN eps : Deliver(e)
Spec == Init /\ [][Next]_eps

KnowsAll(s) == {s.k1, s.k2, s.k3, s.k4} \subseteq Known
Peers(e) == {d \in DOMAIN eps : d /= e /\ Keys(eps[d]) = Keys(eps[e]) /\ eps[d].stage = "done"}
\* C05
ClientAuth == \A e \in DOMAIN Clients :
    (eps[e].stage = "done" /\ eps[e].pin \in HonestPk) =>
        /\ Cardinality(Peers(e)) = 1
        /\ \A d \in Peers(e) : d \in Servers /\ eps[d].me = eps[e].pin /\ eps[d].peer = eps[e].me
        /\ ~KnowsAll(eps[e])
ServerAuth == \A e \in Servers :
    (eps[e].stage = "done" /\ eps[e].peer \in HonestPk) =>
        /\ ~KnowsAll(eps[e])
        /\ Cardinality(Peers(e)) <= 1
        /\ \A d \in Peers(e) : eps[d].me = eps[e].peer /\ eps[d].pin = eps[e].me
NotBothDone == ~\E e \in DOMAIN Clients : eps[e].stage = "done" /\ eps[e].pin = Lt("S")
NotImpersonated == ~\E e \in Servers : eps[e].stage = "done" /\ eps[e].peer = Lt("C") /\ Peers(e) = {}
NotMallory == ~\E e \in Servers : eps[e].stage = "done" /\ eps[e].peer = Lt("M") /\ KnowsAll(eps[e])
=============================================================================

----------------------------- MODULE Handshake -----------------------------
(* The ten step key exchange of package session as a state machine per        *)
(* endpoint over symbolic messages, with ideal cryptography.                   *)
(*   initiator                                   responder                     *)
(*   Ciph(k1, PIN)            ->                                               *)
(*   {Pk(eI)}k1               ->                                               *)
(*                            <-   {Ciph(k2, eI)}k1, {Pk(eR)}k2, {Mac(k1)}k2   *)
(*   {Ciph(k3, eR)}k2, {Pk(I)}k3, {Mac(k2)}k3  ->                              *)
(*                            <-   {Ciph(k4, I)}k3, {Mac(k3)}k4                *)
(* Every sealed frame also carries the sender's frame counter.                 *)
EXTENDS Naturals, Sequences, FiniteSets

None == <<"none">>
Junk == [t |-> "junk"]
Ciph(k, pk) == [t |-> "ciph", k |-> k, pk |-> pk]
Pk(p) == [t |-> "pk", p |-> p]
Mac(k, parts) == [t |-> "mac", k |-> k, parts |-> parts]
Raw(b) == [t |-> "raw", body |-> b]
Enc(k, n, b) == [t |-> "enc", k |-> k, n |-> n, body |-> b]
Key(e, j) == <<"k", e, j>>
Eph(e) == <<"eph", e>>
Lt(n) == <<"lt", n>>   \* the long term public key of n

\* dev /= 0: the endpoint deviates in the body of its dev-th frame.
\* holds: the long term public keys whose private keys the endpoint has.
NewEp(e, role, me, pin, holds, eph, dev) ==
    [name |-> e, role |-> role, me |-> me, pin |-> pin, holds |-> holds, eph |-> eph, dev |-> dev,
     stage |-> IF role = "init" THEN "c2" ELSE "c1",
     k1 |-> IF role = "init" THEN Key(e, 1) ELSE None, k2 |-> None, k3 |-> None, k4 |-> None,
     pep |-> None, peer |-> IF role = "init" THEN pin ELSE None, sp |-> Junk, cp |-> Junk, wn |-> 0, rn |-> 0,
     out |-> <<>>]

\* emit a sealed frame (counter wn), honouring the deviation
Emit(s, k, b) == [s EXCEPT !.out = Append(@, Enc(k, s.wn, IF s.dev = Len(s.out) + 1 THEN Junk ELSE b)),
                           !.wn = @ + 1]
Start(s) == IF s.role = "init"
            THEN Emit([s EXCEPT !.out = <<Raw(IF s.dev = 1 THEN Junk ELSE Ciph(s.k1, s.pin))>>], s.k1, Pk(s.eph))
            ELSE s

Fail(s) == [s EXCEPT !.stage = "failed"]
Opens(s, f, k) == f.t = "enc" /\ f.k = k /\ f.n = s.rn
IsCiph(f, pks) == f.body.t = "ciph" /\ f.body.pk \in pks
Next1(s, st) == [s EXCEPT !.stage = st, !.rn = @ + 1]

\* What an endpoint does with the next frame f it reads.
RecvInit(s, f) ==
    CASE s.stage = "c2" ->
           IF Opens(s, f, s.k1) /\ IsCiph(f, {s.eph}) THEN [Next1(s, "epk") EXCEPT !.k2 = f.body.k] ELSE Fail(s)
      [] s.stage = "epk" ->
           IF Opens(s, f, s.k2) /\ f.body.t = "pk" THEN [Next1(s, "sp") EXCEPT !.pep = f.body.p] ELSE Fail(s)
      [] s.stage = "sp" ->
           IF Opens(s, f, s.k2) /\ f.body = Mac(s.k1, <<Pk(s.eph), Pk(s.pep)>>)
           THEN LET a == [Next1(s, "c4") EXCEPT !.k3 = Key(s.name, 3), !.sp = f.body]
                    c == Mac(a.k2, <<a.sp, Pk(a.me)>>)
                IN [Emit(Emit(Emit(a, a.k2, Ciph(a.k3, a.pep)), a.k3, Pk(a.me)), a.k3, c) EXCEPT !.cp = c]
           ELSE Fail(s)
      [] s.stage = "c4" ->
           IF Opens(s, f, s.k3) /\ IsCiph(f, {s.me} \cap s.holds) THEN [Next1(s, "fp") EXCEPT !.k4 = f.body.k] ELSE Fail(s)
      [] s.stage = "fp" ->
           IF Opens(s, f, s.k4) /\ f.body = Mac(s.k3, <<s.cp, Pk(s.pin)>>) THEN Next1(s, "done") ELSE Fail(s)
      [] OTHER -> s
RecvResp(s, f) ==
    CASE s.stage = "c1" ->
           IF f.t = "raw" /\ IsCiph(f, {s.me} \cap s.holds) THEN [s EXCEPT !.stage = "epk", !.k1 = f.body.k] ELSE Fail(s)
      [] s.stage = "epk" ->
           IF Opens(s, f, s.k1) /\ f.body.t = "pk"
           THEN LET a == [Next1(s, "c3") EXCEPT !.pep = f.body.p, !.k2 = Key(s.name, 2)]
                    p == Mac(a.k1, <<Pk(a.pep), Pk(a.eph)>>)
                IN [Emit(Emit(Emit(a, a.k1, Ciph(a.k2, a.pep)), a.k2, Pk(a.eph)), a.k2, p) EXCEPT !.sp = p]
           ELSE Fail(s)
      [] s.stage = "c3" ->
           IF Opens(s, f, s.k2) /\ IsCiph(f, {s.eph}) THEN [Next1(s, "pk") EXCEPT !.k3 = f.body.k] ELSE Fail(s)
      [] s.stage = "pk" ->
           IF Opens(s, f, s.k3) /\ f.body.t = "pk" THEN [Next1(s, "cp") EXCEPT !.peer = f.body.p] ELSE Fail(s)
      [] s.stage = "cp" ->
           IF Opens(s, f, s.k3) /\ f.body = Mac(s.k2, <<s.sp, Pk(s.peer)>>)
           THEN LET a == [Next1(s, "done") EXCEPT !.k4 = Key(s.name, 4), !.cp = f.body]
                IN Emit(Emit(a, a.k3, Ciph(a.k4, a.peer)), a.k4, Mac(a.k3, <<a.cp, Pk(a.me)>>))
           ELSE Fail(s)
      [] OTHER -> s
Recv(s, f) == IF s.role = "init" THEN RecvInit(s, f) ELSE RecvResp(s, f)

Keys(s) == <<s.k1, s.k2, s.k3, s.k4>>
\* a message written by endpoint s is accepted by endpoint r
Usable(s, r) == s.stage = "done" /\ r.stage = "done" /\ Keys(s) = Keys(r) /\ s.role /= r.role
=============================================================================

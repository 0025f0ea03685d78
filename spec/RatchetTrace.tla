--------------------------- MODULE RatchetTrace ---------------------------
(* Recorded executions of the real ratchet: every event must be explained by *)
(* the corresponding action of Ratchet with the outcome the model predicts.   *)
(* After every operation the recorder also offered every message sent so far  *)
(* to copies of both ratchets (reloaded from their saved state) and logged     *)
(* which were accepted: that set must be the one the model predicts.           *)
EXTENDS Ratchet, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
SetOf(s) == {s[i] : i \in DOMAIN s}

\* what a copy reloaded from the saved state accepts, without the clock moving
CloneAccepts(p) == {i \in 1..Len(msgs) :
                      /\ msgs[i].from = Other(p)
                      /\ DecSt([st[p] EXCEPT !.saved = Live(st[p], clock)], msgs[i], clock)[1]}

TInit == Init /\ l = 1
TReset == Is("reset") /\ st' = InitSt /\ msgs' = <<>> /\ got' = <<>> /\ clock' = 0
TSend == Is("send") /\ Send(Ev.p, Ev.n) /\ Ev.ok
TRecv == Is("recv") /\ Recv(Ev.p, Ev.i) /\ (Ev.ok <=> Accepts(Ev.p, Ev.i)) /\ (Ev.ok => Ev.match)
TBad == Is("bad") /\ Bad(Ev.p) /\ ~Ev.ok
TReload == Is("reload") /\ Reload(Ev.p) /\ Ev.ok
TSave == Is("save") /\ Save(Ev.p) /\ Ev.ok
TTick == Is("tick") /\ Tick(Ev.d)
\* probe: the accepted set of the clones of both parties
TProbe == Is("probe") /\ UNCHANGED vars
          /\ SetOf(Ev.a) = CloneAccepts("a") /\ SetOf(Ev.b) = CloneAccepts("b")
          /\ Ev.match
TNext == TReset \/ TSend \/ TRecv \/ TBad \/ TReload \/ TSave \/ TTick \/ TProbe
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================

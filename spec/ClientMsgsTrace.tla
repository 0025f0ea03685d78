--------------------------- MODULE ClientMsgsTrace ---------------------------
EXTENDS ClientMsgs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op \in o /\ l' = l + 1
TInit == Init /\ l = 1
TReset == /\ Is({"reset"}) /\ up' = TRUE /\ on' = TRUE /\ deaf' = FALSE /\ nt' = Zero /\ ns' = Zero /\ lossy' = None /\ again' = None /\ kills' = 0
          /\ got' = Nil /\ shown' = Nil /\ mine' = Nil /\ store' = Nil
Seen == /\ got' = [p \in Peers |-> Ev.obs.got[p]] /\ shown' = [p \in Peers |-> Ev.obs.shown[p]]
        /\ mine' = [p \in Peers |-> Ev.obs.mine[p]] /\ store' = [p \in Peers |-> Ev.obs.store[p]]
        /\ Ev.obs.bad = 0 /\ Ev.obs.odd = 0 /\ Ev.obs.up = up' /\ Ev.obs.on = on'
        /\ Ev.ok
        /\ \A p \in Peers : Possible(p)
\* how many of the messages of an operation are for p: the k-th goes to the (k mod n)-th contact
Mixed(p) == LET ix == CHOOSE i \in 1..Len(Ev.names) : Ev.names[i] = p
            IN Cardinality({k \in 0..Ev.i-1 : (k % Len(Ev.names)) + 1 = ix})
Typed == nt' = [nt EXCEPT ![Ev.p] = @ + Ev.nt]
Told == ns' = IF Ev.kind = "mix" THEN [p \in Peers |-> ns[p] + Mixed(p)] ELSE [ns EXCEPT ![Ev.q] = @ + Ev.i]
Idle == UNCHANGED <<nt, ns>>
TType == Is({"type", "busy"}) /\ Typed /\ UNCHANGED <<up, on, deaf, ns>> /\ Same /\ Seen /\ Settled
TTell == Is({"tell"}) /\ ns' = [ns EXCEPT ![Ev.p] = @ + Ev.n] /\ UNCHANGED <<up, on, deaf, nt>> /\ Same /\ Seen /\ Settled
TBoth == Is({"both", "flood"}) /\ Typed /\ Told /\ UNCHANGED <<up, on, deaf>> /\ Same /\ Seen /\ Settled
TRace == Is({"race"}) /\ Typed /\ Told /\ on' = FALSE /\ deaf' = FALSE /\ UNCHANGED up /\ Same /\ Seen /\ Settled
TUnseen == /\ Is({"unseen"}) /\ ns' = [ns EXCEPT ![Ev.p] = @ + Ev.n] /\ on' = FALSE /\ deaf' = FALSE /\ UNCHANGED <<nt, up>> /\ Same /\ Seen /\ Settled
TServer == Is({"hold", "release", "forge", "junk", "window"}) /\ Idle /\ UNCHANGED <<up, on, deaf>> /\ Same /\ Seen /\ Settled
TDeaf == Is({"deaf"}) /\ Idle /\ deaf' = TRUE /\ UNCHANGED <<up, on>> /\ Same /\ Seen
TCut == Is({"cut", "offline"}) /\ Idle /\ deaf' = FALSE /\ on' = FALSE /\ UNCHANGED up /\ Same /\ Seen
TOnline == Is({"online", "auto"}) /\ Idle /\ on' = TRUE /\ UNCHANGED <<up, deaf>> /\ Same /\ Seen /\ Settled
TKill == /\ Is({"kill", "crash", "rkill"})
         /\ IF Ev.op = "kill" THEN Idle ELSE Typed /\ Told
         /\ up' = FALSE /\ on' = FALSE /\ deaf' = FALSE /\ Seen /\ Died
TStart == Is({"start"}) /\ Idle /\ up' = TRUE /\ on' = TRUE /\ deaf' = FALSE /\ Same /\ Seen /\ Settled
TNext == TReset \/ TType \/ TTell \/ TBoth \/ TRace \/ TUnseen \/ TServer \/ TDeaf \/ TCut \/ TOnline \/ TKill \/ TStart
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

--------------------------- MODULE HandshakeTrace ---------------------------
EXTENDS Handshake, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES eps, used, l
tvars == <<eps, used, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
TInit == eps = <<>> /\ used = {} /\ l = 1
TReset == Is("reset") /\ eps' = <<>> /\ used' = {}
Role(e) == IF e \in {"c1", "c2"} THEN "init" ELSE "resp"
TEp == /\ Is("ep") /\ UNCHANGED used
       /\ eps' = (Ev.p :> Start(NewEp(Ev.p, Role(Ev.p), Lt(Ev.k), IF Ev.v = "" THEN None ELSE Lt(Ev.v), {Lt(Ev.k)}, Eph(Ev.p), 0))) @@ eps
TDlv == /\ Is("dlv") /\ UNCHANGED used
        /\ LET f == eps[Ev.q].out[Ev.i]
               g == IF Ev.b THEN (IF f.t = "raw" THEN Raw(Junk) ELSE Enc(None, 0, Junk)) ELSE f
           IN eps' = [eps EXCEPT ![Ev.p] = Recv(@, g)]
\* an endpoint reported how its handshake went, how many frames it sent, and who the peer is
Reports(e) == /\ Ev.ok <=> eps[e].stage = "done"
              /\ Ev.n = Len(eps[e].out)
              /\ Ev.ok => Lt(Ev.peer) = eps[e].peer /\ Ev.idok
TDone == Is("done") /\ Reports(Ev.p) /\ UNCHANGED <<eps, used>>
\* the first message written by one end, given to the other
TUse == /\ Is("use") /\ used' = used \cup {Ev.q} /\ UNCHANGED eps
        /\ Ev.ok <=> Usable(eps[Ev.p], eps[Ev.q])
RECURSIVE Feed(_, _)
Feed(s, fs) == IF fs = <<>> THEN s ELSE Feed(Recv(s, Head(fs)), Tail(fs))
\* a run of an honest endpoint against one that deviates or impersonates
DevPair(i, r) == LET r1 == Feed(r, SubSeq(i.out, 1, 2))
                     i1 == Feed(i, SubSeq(r1.out, 1, Len(r1.out)))
                     r2 == Feed(r1, SubSeq(i1.out, 3, Len(i1.out)))
                     i2 == Feed(i1, SubSeq(r2.out, 4, Len(r2.out)))
                 IN <<i2, r2>>
TDev == /\ Is("dev") /\ UNCHANGED <<eps, used>>
        /\ LET holds == {IF Ev.v = "own" THEN Lt("X") ELSE Lt("Y")}
               i == IF Ev.p = "init" THEN NewEp("i", "init", Lt("X"), Lt("S"), holds, Eph("i"), Ev.n)
                    ELSE NewEp("i", "init", Lt("C"), Lt("X"), {Lt("C")}, Eph("i"), 0)
               r == IF Ev.p = "init" THEN NewEp("r", "resp", Lt("S"), None, {Lt("S")}, Eph("r"), 0)
                    ELSE NewEp("r", "resp", Lt("X"), None, holds, Eph("r"), Ev.n)
               p == DevPair(Start(i), r)
               real == IF Ev.p = "init" THEN p[2] ELSE p[1]
           IN /\ Ev.ok <=> real.stage = "done"
              /\ Ev.rd <=> Usable(p[1], p[2])
              /\ Ev.wr <=> Usable(p[1], p[2])
TNext == TReset \/ TEp \/ TDlv \/ TDone \/ TUse \/ TDev
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

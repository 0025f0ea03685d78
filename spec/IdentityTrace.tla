---------------------------- MODULE IdentityTrace ----------------------------
EXTENDS Identity, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ids, signed, l
tvars == <<ids, signed, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
TInit == l = 1 /\ ids = <<>> /\ signed = {}
TReset == Is("reset") /\ ids' = <<>> /\ signed' = {}
TNew == Is("new") /\ Ev.ok /\ ids' = (Ev.p :> NewId(Ev.p, Ev.k, Ev.v)) @@ ids /\ UNCHANGED signed
TTrip == Is("trip") /\ Ev.ok /\ UNCHANGED <<ids, signed>>
Fresh == <<"fresh">>
Altered(p, q, k, use) ==
    CASE k = "name" -> [p EXCEPT !.name = IF use THEN q.name ELSE "?fresh?"]
      [] k = "nick" -> [p EXCEPT !.nick = IF use THEN q.nick ELSE "?fresh?"]
      [] k = "sigkey" -> [p EXCEPT !.sk = IF use THEN q.sk ELSE Fresh]
      [] k = "key" -> [p EXCEPT !.key = IF use THEN q.key ELSE Fresh]
      [] k = "keyid" -> [p EXCEPT !.key = q.key, !.id = q.id]
      [] k = "identity" -> [p EXCEPT !.id = IF use THEN q.id ELSE Fresh]
      [] k = "digest" -> [p EXCEPT !.digest = IF use THEN q.digest ELSE Fresh]
      [] k = "signature" -> [p EXCEPT !.sig = IF use THEN q.sig ELSE Fresh]
      [] k = "sigpair" -> [p EXCEPT !.digest = q.digest, !.sig = q.sig]
      [] k = "forgedhandle" -> Signed([p EXCEPT !.id = q.id])
      [] k = "all" -> [q EXCEPT !.id = p.id]
\* the altered identity is accepted iff it is a valid one; then it is that of p unless it is q's
TAlter == /\ Is("alter") /\ UNCHANGED <<ids, signed>>
          /\ LET a == Altered(ids[Ev.p], ids[Ev.q], Ev.k, Ev.b)
             IN /\ (Ev.ok <=> Valid(a))
                /\ (Ev.v <=> Valid(a))
                /\ (Ev.ok => (Ev.same <=> (a = ids[Ev.p])))
\* name and nick with a letter moved over from the nick to the name: not the identity it was
TShift == Is("shift") /\ UNCHANGED <<ids, signed>> /\ (Ev.changed => ~Ev.ok)
TBytes == Is("bytes") /\ (Ev.ok => Ev.same) /\ UNCHANGED <<ids, signed>>
TSign == Is("sign") /\ signed' = signed \cup {<<Ev.p, Ev.k>>} /\ UNCHANGED ids
TVerify == /\ Is("verify") /\ <<Ev.p, Ev.k>> \in signed /\ UNCHANGED <<ids, signed>>
           /\ (Ev.ok <=> (Ev.p = Ev.q /\ Ev.k = Ev.v /\ ~Ev.b))
TStr == /\ Is("str") /\ (Ev.ok => Ev.same) /\ (Ev.n = 0 => Ev.ok) /\ UNCHANGED <<ids, signed>>
TNext == TReset \/ TNew \/ TTrip \/ TAlter \/ TShift \/ TBytes \/ TSign \/ TVerify \/ TStr
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE ServerTrace -----------------------------
(* Is the recording a behaviour of Server? The state is the set of server      *)
(* states that explain what was seen so far; operations that are under way    *)
(* take effect as late as what is seen allows.                                *)
EXTENDS Server, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, at, pres, out, sent, over, mayDie, offAt, l
tvars == <<S, at, pres, out, sent, over, mayDie, offAt, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
Sessionless == {"login", "create", "disable", "enable", "crash"}

\* --- operations that are under way take effect
First(c, i) == Trace[i].kind \in Sessionless \/
    ~\E j \in c.pend : j < i /\ Trace[j].sid = Trace[i].sid /\ Trace[j].kind \notin Sessionless
Dropped(c, i) == \* what no longer takes effect once i did
    CASE Trace[i].kind = "login" /\ Trace[i].res \in {"ok", "closed"} -> {j \in c.pend : Trace[j].kind \notin Sessionless /\ Trace[j].u = Trace[i].u /\ Trace[j].sid # Trace[i].sid}
      [] Trace[i].kind = "crash" -> {j \in c.pend : Trace[j].kind \notin Sessionless}
      [] OTHER -> {}
\* what a user acknowledges who is being disabled may be lost even if a later request of that session is served
Disabling(c, u, i) == \/ u \in DOMAIN offAt /\ offAt[u] > i
                      \/ \E j \in c.pend \cup c.done : Trace[j].kind = "disable" /\ Trace[j].u = u /\ Trace[j].res \in {"ok", "dead"}
Lin(c, i) ==
    LET o == Trace[i]
        s0 == IF o.kind \in Sessionless THEN {c.s} ELSE IF Disabling(c, o.u, i) THEN SomeAckedBefore(c.s, o.u, i) ELSE {AckedBefore(c.s, o.u, i)}
    IN {[s |-> t, pend |-> (c.pend \ {i}) \ Dropped(c, i), done |-> c.done \cup {i}] : t \in UNION {Eff(s, o) : s \in s0}}
Kill(c, i) == \* a login knocks the session before it out
    LET o == Trace[i]
    IN IF o.kind = "login" /\ o.res \in {"ok", "closed"} /\ c.s.sess[o.u] \notin {0, o.sid}
       THEN {[c EXCEPT !.s.sess[o.u] = 0]} ELSE {}
Step(c) == UNION {(IF First(c, i) THEN Lin(c, i) ELSE {}) \cup Kill(c, i) : i \in c.pend}

\* a was answered (or its fate was sealed) before b was called, or they come from the same session
Before(a, b) == \/ a \in DOMAIN over /\ over[a] < sent[b].l
                \/ sent[a].sid = sent[b].sid /\ sent[a].l < sent[b].l

\* --- what has to hold for the event to be seen
Goal(c, g) ==
    CASE g = "ret" -> at[Ev.id] \in c.done
      [] g = "push" -> /\ Ev.sid \in c.s.granted
                       /\ c.s.sess[Ev.u] = Ev.sid => Pushable(c.s, Ev.u, Ev.m, pres[Ev.sid], Before)
      [] g = "eof" -> c.s.sess[Ev.u] # Ev.sid \/ Ev.sid \in mayDie
RECURSIVE Reach(_, _, _, _)
Reach(front, seen, hit, g) ==
    LET h == {c \in front : Goal(c, g)}
        nxt == (UNION {Step(c) : c \in front \ h}) \ (seen \cup front)
    IN IF front = {} THEN hit ELSE Reach(nxt, seen \cup front, hit \cup h, g)
Hits(g) == Reach(S, {}, {}, g)
RECURSIVE All(_, _)
All(front, seen) == IF front = {} THEN seen ELSE All((UNION {Step(c) : c \in front}) \ (seen \cup front), seen \cup front)

\* --- events
TInit == l = 1 /\ S = {} /\ at = <<>> /\ pres = <<>> /\ out = <<>> /\ sent = <<>> /\ over = <<>> /\ mayDie = {} /\ offAt = <<>>
TReset == /\ Is("reset")
          /\ S' = {[s |-> Empty(Ev.k, Ev.b), pend |-> {}, done |-> {}]}
          /\ at' = <<>> /\ pres' = <<>> /\ out' = <<>> /\ sent' = <<>> /\ over' = <<>> /\ mayDie' = {} /\ offAt' = <<>>
TCall == /\ Is("call") /\ at' = (Ev.id :> l) @@ at
         /\ S' = {IF Ev.kind \in Sessionless \/ c.s.sess[Ev.u] = Ev.sid THEN [c EXCEPT !.pend = @ \cup {l}] ELSE c : c \in S}
         /\ sent' = IF Ev.kind = "send" THEN (Ev.m :> [u |-> Ev.u, v |-> Ev.v, k |-> Ev.k, sid |-> Ev.sid, l |-> l]) @@ sent ELSE sent
         /\ pres' = IF Ev.kind = "login" THEN (Ev.sid :> {}) @@ pres ELSE pres
         /\ out' = IF Ev.kind = "login" THEN (Ev.sid :> <<>>) @@ out ELSE out
         /\ UNCHANGED <<offAt, mayDie, over>>
\* the fate of what got no answer remains open, except that the client has left
Left(c, o) == IF c.s.sess[o.u] = o.sid THEN [c EXCEPT !.s.sess[o.u] = 0] ELSE c
TRet == /\ Is("ret") /\ offAt' = (IF Ev.kind = "disable" THEN (Trace[at[Ev.id]].u :> l) @@ offAt ELSE offAt) /\ UNCHANGED <<at, pres, out, sent, mayDie>>
        /\ over' = LET o == Trace[at[Ev.id]]
                   IN CASE Ev.res = "dead" -> over
                        [] Ev.kind = "send" -> (o.m :> l) @@ over
                        [] Ev.kind = "crash" -> over @@ [m \in DOMAIN sent |-> l]
                        [] OTHER -> over
        /\ LET i == at[Ev.id]
           IN S' = CASE Ev.res = "dead" -> S
                     [] Ev.res = "closed" -> {Left([c EXCEPT !.pend = @ \ {i}, !.done = @ \ {i}, !.s.granted = @ \ {Trace[i].sid}], Trace[i]) : c \in All(S, {})}
                     [] OTHER -> {[c EXCEPT !.done = @ \ {i}] : c \in Hits("ret")}
        /\ S' # {}
TPush == /\ Is("push") /\ UNCHANGED <<offAt, over, at, sent, mayDie>>
         /\ Ev.m \in DOMAIN sent /\ sent[Ev.m].u = Ev.v /\ sent[Ev.m].v = Ev.u /\ sent[Ev.m].k = Ev.kind
         /\ Ev.m \notin pres[Ev.sid]
         /\ Ev.t < Depth /\ Ev.t \notin DOMAIN out[Ev.sid] /\ Cardinality(DOMAIN out[Ev.sid]) < Depth
         /\ pres' = [pres EXCEPT ![Ev.sid] = @ \cup {Ev.m}]
         /\ out' = [out EXCEPT ![Ev.sid] = (Ev.t :> Ev.m) @@ @]
         /\ S' = {IF c.s.sess[Ev.u] = Ev.sid THEN [c EXCEPT !.s = Pushed(@, Ev.u, Ev.m)] ELSE c : c \in Hits("push")} /\ S' # {}
TAck == /\ Is("ack") /\ UNCHANGED <<offAt, over, at, pres, sent, mayDie>>
        /\ out' = [out EXCEPT ![Ev.sid] = [t \in DOMAIN @ \ {Ev.t} |-> @[t]]]
        /\ S' = {IF Ev.m # 0 /\ c.s.sess[Ev.u] = Ev.sid
                 THEN [c EXCEPT !.s.maybe[Ev.u] = Append(@, [l |-> l, m |-> Ev.m])] ELSE c : c \in S}
TBye == /\ Is("bye") /\ S' = {Left(c, Ev) : c \in S} /\ UNCHANGED <<offAt, over, at, pres, out, sent, mayDie>>
TEof == /\ Is("eof") /\ S' = {Left(c, Ev) : c \in Hits("eof")} /\ S' # {} /\ UNCHANGED <<offAt, over, at, pres, out, sent, mayDie>>
TBad == /\ Is("bad") /\ mayDie' = mayDie \cup {Ev.sid} /\ UNCHANGED <<offAt, over, S, at, pres, out, sent>>
TToken == /\ Is("token") /\ S' = {IF Ev.b THEN c ELSE [c EXCEPT !.s.toks = @ \cup {Ev.k}] : c \in S}
          /\ UNCHANGED <<offAt, over, at, pres, out, sent, mayDie>>
\* every PIN there is of these holds a blob
TCrowd == /\ Is("crowd") /\ S' = {[c EXCEPT !.s.blobs = ("crowd" :> "crowd") @@ @] : c \in S}
          /\ UNCHANGED <<offAt, over, at, pres, out, sent, mayDie>>
TNext == TCrowd \/ TReset \/ TCall \/ TRet \/ TPush \/ TAck \/ TBye \/ TEof \/ TBad \/ TToken
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

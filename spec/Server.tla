------------------------------- MODULE Server -------------------------------
(* The server as its users see it: accounts, queues of undelivered messages,  *)
(* sessions, account tokens, the directory and rendezvous blobs. An operation *)
(* is a record o (who asked what and, once known, the answer o.res); Eff(s,o) *)
(* is the set of states in which the server may be after it gave that answer, *)
(* empty if it must not give it.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Users, Depth

Empty(pol, dir) ==
    [pol |-> pol, dir |-> dir, st |-> [u \in Users |-> "none"], nick |-> [u \in Users |-> ""], listed |-> [u \in Users |-> FALSE],
     q |-> [u \in Users |-> [ord |-> <<>>, rest |-> {}]], toks |-> {}, blobs |-> <<>>, sess |-> [u \in Users |-> 0], maybe |-> [u \in Users |-> <<>>],
     granted |-> {}]

\* A queue: those whose order has been seen, then the others, whose order is
\* open as far as it does not follow from who was answered before whom called
Queued(q) == {q.ord[i] : i \in 1..Len(q.ord)} \cup q.rest
Without(q, ms) == [ord |-> SelectSeq(q.ord, LAMBDA m : m \notin ms), rest |-> q.rest \ ms]
\* acknowledgements 1..n of the user's session were processed
Acked(s, u, n) ==
    LET ms == {s.maybe[u][i].m : i \in 1..n}
    IN [s EXCEPT !.q[u] = Without(@, ms), !.maybe[u] = SubSeq(@, n + 1, Len(@))]
\* those sent before l
AckedBefore(s, u, l) == Acked(s, u, Cardinality({i \in 1..Len(s.maybe[u]) : s.maybe[u][i].l < l}))
\* some of them, the others are lost
SomeAckedBefore(s, u, l) ==
    LET k == Cardinality({i \in 1..Len(s.maybe[u]) : s.maybe[u][i].l < l})
        rest == SubSeq(s.maybe[u], k + 1, Len(s.maybe[u]))
    IN {[Acked(s, u, n) EXCEPT !.maybe[u] = rest] : n \in 0..k}

Taken(s, o) == [s EXCEPT !.q[o.v].rest = @ \cup {o.m}]
Known(s, v) == v \in Users /\ s.st[v] # "none"
IsOn(s, v) == v \in Users /\ s.st[v] = "on"
IsOff(s, v) == v \in Users /\ s.st[v] = "off"

Send(s, o) ==
    CASE o.res = "ok" -> IF IsOn(s, o.v) THEN {Taken(s, o)} ELSE {}
      [] o.res = "refused" -> IF ~IsOn(s, o.v) \/ o.b \/ o.f THEN {s} ELSE {}
      [] o.res = "disabled" -> IF IsOff(s, o.v) THEN {s} ELSE {}
      [] o.res = "dead" -> {s} \cup IF IsOn(s, o.v) THEN {Taken(s, o)} ELSE {}
      [] OTHER -> {}

NickTaken(s, n) == \E w \in Users : s.listed[w] /\ s.nick[w] = n
Create(s, o) ==
    LET tok == s.pol = "yes" \/ (s.pol = "token" /\ o.v \in s.toks)
        may == tok /\ s.st[o.u] = "none" /\ ~NickTaken(s, o.k) /\ ~o.b
        spent == [s EXCEPT !.toks = @ \ {o.v}]
        made == [(IF s.pol = "token" THEN spent ELSE s) EXCEPT !.st[o.u] = "on", !.nick[o.u] = o.k]
    IN CASE o.res = "ok" -> IF may THEN {made} ELSE {}
         [] o.res = "refused" -> IF ~may \/ o.f THEN {s, spent} ELSE {}
         [] o.res = "dead" -> {s, spent} \cup (IF may THEN {made} ELSE {})
         [] OTHER -> {}

\* a session is granted; what was acknowledged in the one before may or may not have been processed
Grant(s, o) ==
    {LET a == Acked(s, o.u, n)
     IN [a EXCEPT !.maybe[o.u] = <<>>, !.sess[o.u] = o.sid, !.granted = @ \cup {o.sid}, !.listed[o.u] = @ \/ s.dir] : n \in 0..Len(s.maybe[o.u])}
Login(s, o) ==
    CASE o.res \in {"ok", "closed"} -> IF IsOn(s, o.u) THEN Grant(s, o) ELSE {}
      [] o.res = "unwelcome" -> IF IsOff(s, o.u) THEN {s} ELSE {}
      [] o.res = "unknown" -> IF ~IsOn(s, o.u) \/ o.f THEN {s} ELSE {}
      [] OTHER -> {}

Off(s, u) == [s EXCEPT !.st[u] = "off", !.sess[u] = 0]
Disable(s, o) ==
    CASE o.res = "ok" -> IF IsOn(s, o.u) THEN {Off(s, o.u)} ELSE {}
      [] o.res = "error" -> IF IsOn(s, o.u) /\ ~o.f THEN {} ELSE {s}
      [] o.res = "dead" -> {s} \cup IF IsOn(s, o.u) THEN {Off(s, o.u)} ELSE {}
      [] OTHER -> {}
Enable(s, o) ==
    CASE o.res = "ok" -> IF IsOff(s, o.u) THEN {[s EXCEPT !.st[o.u] = "on"]} ELSE {}
      [] o.res = "error" -> IF IsOff(s, o.u) /\ ~o.f THEN {} ELSE {s}
      [] o.res = "dead" -> {s} \cup IF IsOff(s, o.u) THEN {[s EXCEPT !.st[o.u] = "on"]} ELSE {}
      [] OTHER -> {}

Find(s, o) ==
    CASE o.res = "ok" -> IF s.dir /\ Known(s, o.x) /\ s.listed[o.x] /\ s.nick[o.x] = o.k THEN {s} ELSE {}
      [] o.res = "none" -> IF s.dir /\ NickTaken(s, o.k) THEN {} ELSE {s}
      [] o.res = "dead" -> {s}
      [] OTHER -> {}

Upload(s, o) ==
    CASE o.res = "ok" -> IF ~o.b /\ o.x \notin DOMAIN s.blobs THEN {[s EXCEPT !.blobs = (o.x :> o.k) @@ @]} ELSE {}
      [] o.res = "refused" -> IF o.b \/ o.f THEN {s} ELSE {}
      [] o.res = "dead" -> {s}
      [] OTHER -> {}
Pull(s, o) ==
    CASE o.res = "ok" -> IF o.k \in DOMAIN s.blobs /\ s.blobs[o.k] = o.x THEN {s} ELSE {}
      [] o.res = "none" -> IF o.k \in DOMAIN s.blobs /\ ~o.f THEN {} ELSE {s}
      [] o.res = "dead" -> {s}
      [] OTHER -> {}

Crash(s, o) == {[s EXCEPT !.sess = [u \in Users |-> 0], !.pol = o.k, !.dir = o.b]}

Eff(s, o) ==
    CASE o.kind = "send" -> Send(s, o)
      [] o.kind = "create" -> Create(s, o)
      [] o.kind = "login" -> Login(s, o)
      [] o.kind = "disable" -> Disable(s, o)
      [] o.kind = "enable" -> Enable(s, o)
      [] o.kind = "find" -> Find(s, o)
      [] o.kind = "upload" -> Upload(s, o)
      [] o.kind = "pull" -> Pull(s, o)
      [] o.kind = "ping" -> IF o.res \in {"ok", "dead"} THEN {s} ELSE {}
      [] o.kind = "crash" -> Crash(s, o)
      [] OTHER -> {}

\* m may be pushed next in the session of u in which those in pres were pushed
Pushable(s, u, m, pres, Before(_, _)) ==
    LET q == s.q[u]
    IN \/ \E i \in 1..Len(q.ord) : q.ord[i] = m /\ \A j \in 1..(i - 1) : q.ord[j] \in pres
       \/ /\ m \in q.rest
          /\ \A j \in 1..Len(q.ord) : q.ord[j] \in pres
          /\ \A e \in q.rest : ~Before(e, m)
Pushed(s, u, m) == IF m \in s.q[u].rest THEN [s EXCEPT !.q[u] = [ord |-> Append(@.ord, m), rest |-> @.rest \ {m}]] ELSE s
=============================================================================

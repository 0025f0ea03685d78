----------------------------- MODULE ClientImpl -----------------------------
(* One contact of the client: what is in memory, what is on disk, what is on   *)
(* its way, with sessions that end and a process that dies between any two     *)
(* steps.  The order of the steps is a parameter, so that the orders that do   *)
(* not work can be seen not to work.                                           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NT, NS,        \* messages that are typed, messages that the contact sends
          MaxCut, MaxKill,
          SaveFirst,     \* the ratchet is saved before a message is sent
          ShowFirst,     \* a message is shown before the ratchet is saved
          Resend,        \* "same" ciphertext, "new" one, or "no": what was not acknowledged, in the next session
          BindTags       \* an acknowledgement for an earlier session is dropped
VARIABLES up, sess, on, kills,
          nt, queue, unack, sending, skey,   \* typed; waiting; sent; being sent; next key on disk
          wire, peerKeys, got, bad,          \* to the server; keys the contact has used; what it has read; what it could not read
          ns, store, push, handling, rkeys, shown, acks, \* sent by the contact; held by the server; on its way to the client; being dealt with
          acked, wrongAck
vars == <<up, sess, on, kills, nt, queue, unack, sending, skey, wire, peerKeys, got, bad, ns, store, push, handling, rkeys, shown, acks, acked, wrongAck>>
Idle == [st |-> "idle"]
Range(s) == {s[i] : i \in 1..Len(s)}
Init == /\ up = TRUE /\ sess = 1 /\ on = TRUE /\ kills = 0
        /\ nt = 0 /\ queue = <<>> /\ unack = <<>> /\ sending = Idle /\ skey = 1
        /\ wire = <<>> /\ peerKeys = {} /\ got = <<>> /\ bad = 0
        /\ ns = 0 /\ store = <<>> /\ push = <<>> /\ handling = Idle /\ rkeys = {} /\ shown = <<>> /\ acks = <<>>
        /\ acked = {} /\ wrongAck = 0
sendVars == <<nt, queue, unack, sending, skey, wire, peerKeys, got, bad>>
recvVars == <<ns, store, push, handling, rkeys, shown, acks, acked, wrongAck>>
runVars == <<up, sess, on, kills>>

(* ---- sending ---- *)
Type == /\ up /\ nt < NT /\ nt' = nt + 1 /\ queue' = Append(queue, nt + 1)
        /\ UNCHANGED <<runVars, unack, sending, skey, wire, peerKeys, got, bad, recvVars>>
\* the key is taken from disk; what the ratchet is then exists only in memory
Encrypt == /\ up /\ on /\ sending = Idle /\ queue # <<>>
           /\ sending' = [st |-> IF SaveFirst THEN "save" ELSE "write", m |-> Head(queue), k |-> skey, s |-> sess]
           /\ UNCHANGED <<runVars, nt, queue, unack, skey, wire, peerKeys, got, bad, recvVars>>
Save == /\ up /\ sending.st = "save"
        /\ skey' = sending.k + 1
        /\ sending' = IF SaveFirst THEN [sending EXCEPT !.st = "write"] ELSE Idle
        /\ queue' = IF SaveFirst THEN queue ELSE Tail(queue)
        /\ UNCHANGED <<runVars, nt, unack, wire, peerKeys, got, bad, recvVars>>
\* the session may have ended meanwhile: it is tried again, with another key
Write == /\ up /\ sending.st = "write"
         /\ IF on /\ sess = sending.s
            THEN /\ wire' = Append(wire, [m |-> sending.m, k |-> sending.k])
                 /\ unack' = Append(unack, [m |-> sending.m, k |-> sending.k])
                 /\ IF SaveFirst THEN sending' = Idle /\ queue' = Tail(queue) ELSE sending' = [sending EXCEPT !.st = "save"] /\ UNCHANGED queue
            ELSE sending' = Idle /\ UNCHANGED <<wire, unack, queue>>
         /\ UNCHANGED <<runVars, nt, skey, peerKeys, got, bad, recvVars>>
\* the server takes it and the contact reads it; one that was read before is ignored, but another with the same key is lost
Arrive == /\ wire # <<>>
          /\ LET x == Head(wire) IN
             IF x.k \in {y.k : y \in peerKeys}
             THEN /\ bad' = IF x \in peerKeys THEN bad ELSE bad + 1
                  /\ UNCHANGED <<peerKeys, got>>
             ELSE /\ peerKeys' = peerKeys \cup {x} /\ got' = Append(got, x.m) /\ UNCHANGED bad
          /\ wire' = Tail(wire)
          /\ UNCHANGED <<runVars, nt, queue, unack, sending, skey, recvVars>>
\* the acknowledgement reaches the client, or does not
AckOf == /\ up /\ on /\ unack # <<>> /\ Head(unack) \in peerKeys
         /\ Head(unack) \notin Range(wire)
         /\ unack' = Tail(unack)
         /\ UNCHANGED <<runVars, nt, queue, sending, skey, wire, peerKeys, got, bad, recvVars>>

(* ---- receiving ---- *)
Free == CHOOSE t \in 1..NS : t \notin {x.t : x \in Range(store)} /\ \A u \in 1..t-1 : u \in {x.t : x \in Range(store)}
Tell == /\ ns < NS /\ ns' = ns + 1
        /\ LET x == [m |-> ns + 1, t |-> Free] IN
           /\ store' = Append(store, x)
           /\ push' = IF on THEN Append(push, x) ELSE push
        /\ UNCHANGED <<runVars, sendVars, handling, rkeys, shown, acks, acked, wrongAck>>
\* what was received before the session ended is still dealt with
Begin == /\ up /\ handling = Idle /\ push # <<>>
         /\ push' = Tail(push)
         /\ LET h == [st |-> "ack", m |-> Head(push).m, t |-> Head(push).t, s |-> sess] IN
            handling' = IF h.m \in rkeys THEN h       \* undecipherable: only acknowledged
                        ELSE [h EXCEPT !.st = IF ShowFirst THEN "show" ELSE "key"]
         /\ UNCHANGED <<runVars, sendVars, ns, store, rkeys, shown, acks, acked, wrongAck>>
Show == /\ up /\ handling.st = "show" /\ shown' = Append(shown, handling.m)
        /\ handling' = [handling EXCEPT !.st = IF ShowFirst THEN "key" ELSE "ack"]
        /\ UNCHANGED <<runVars, sendVars, ns, store, push, rkeys, acks, acked, wrongAck>>
Key == /\ up /\ handling.st = "key" /\ rkeys' = rkeys \cup {handling.m}
       /\ handling' = [handling EXCEPT !.st = IF ShowFirst THEN "ack" ELSE "show"]
       /\ UNCHANGED <<runVars, sendVars, ns, store, push, shown, acks, acked, wrongAck>>
\* the acknowledgement carries the tag of the session; the tag means something else in another one
QueueAck == /\ up /\ handling.st = "ack" /\ acks' = Append(acks, [t |-> handling.t, s |-> handling.s]) /\ handling' = Idle
            /\ UNCHANGED <<runVars, sendVars, ns, store, push, rkeys, shown, acked, wrongAck>>
Ack == /\ up /\ on /\ acks # <<>> /\ acks' = Tail(acks)
       /\ LET a == Head(acks) IN
          IF a.s # sess /\ BindTags THEN UNCHANGED <<store, acked, wrongAck>>
          ELSE IF \E x \in Range(store) : x.t = a.t
          THEN /\ store' = SelectSeq(store, LAMBDA x : x.t # a.t)
               /\ acked' = acked \cup {x.m : x \in {y \in Range(store) : y.t = a.t}}
               /\ UNCHANGED wrongAck
          ELSE wrongAck' = 1 /\ UNCHANGED <<store, acked>>
       /\ UNCHANGED <<runVars, sendVars, ns, push, handling, rkeys, shown>>

(* ---- sessions and the process ---- *)
Numbered == [i \in 1..Len(store) |-> [store[i] EXCEPT !.t = i]]
\* what was written may still arrive after the session, in part
Cut == /\ on /\ sess <= MaxCut + kills
       /\ on' = FALSE
       /\ \E n \in 0..Len(push) : push' = SubSeq(push, 1, n)
       /\ \E n \in 0..Len(wire) : wire' = SubSeq(wire, 1, n)
       /\ UNCHANGED <<up, sess, kills, nt, queue, unack, sending, skey, peerKeys, got, bad, ns, store, handling, rkeys, shown, acks, acked, wrongAck>>
\* the server has dealt with all of the previous session
Connect == /\ up /\ ~on /\ wire = <<>> /\ handling = Idle
           /\ on' = TRUE /\ sess' = sess + 1 /\ push' = Numbered /\ store' = Numbered
           /\ CASE Resend = "same" -> wire' = unack /\ UNCHANGED <<unack, queue>>
                [] Resend = "new"  -> queue' = [i \in 1..Len(unack) |-> unack[i].m] \o queue /\ unack' = <<>> /\ UNCHANGED wire
                [] OTHER           -> unack' = <<>> /\ UNCHANGED <<wire, queue>>
           /\ UNCHANGED <<up, kills, nt, sending, skey, peerKeys, got, bad, ns, handling, rkeys, shown, acks, acked, wrongAck>>
Kill == /\ up /\ kills < MaxKill /\ kills' = kills + 1
        /\ up' = FALSE /\ on' = FALSE /\ push' = <<>>
        /\ \E n \in 0..Len(wire) : wire' = SubSeq(wire, 1, n)
        /\ queue' = <<>> /\ unack' = <<>> /\ sending' = Idle /\ handling' = Idle /\ acks' = <<>>
        /\ UNCHANGED <<sess, nt, skey, peerKeys, got, bad, ns, store, rkeys, shown, acked, wrongAck>>
Start == /\ ~up /\ wire = <<>> /\ up' = TRUE /\ on' = TRUE /\ sess' = sess + 1 /\ push' = Numbered /\ store' = Numbered
         /\ UNCHANGED <<kills, sendVars, ns, handling, rkeys, shown, acks, acked, wrongAck>>
Next == Type \/ Encrypt \/ Save \/ Write \/ Arrive \/ AckOf \/ Tell \/ Begin \/ Show \/ Key \/ QueueAck \/ Ack \/ Cut \/ Connect \/ Kill \/ Start
Fair == /\ WF_vars(Encrypt) /\ WF_vars(Save) /\ WF_vars(Write) /\ WF_vars(Arrive) /\ WF_vars(AckOf) /\ WF_vars(Begin) /\ WF_vars(Show)
        /\ WF_vars(Key) /\ WF_vars(QueueAck) /\ WF_vars(Ack) /\ WF_vars(Connect) /\ WF_vars(Start)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- properties ---- *)
OnceInOrder == \A i, j \in 1..Len(got) : i < j => got[i] < got[j]
NoKeyTwice == bad = 0
\* without a kill nothing typed can disappear: it is waiting, being sent, sent or there
NothingForgotten == kills = 0 => \A m \in 1..nt : m \in Range(queue) \cup Range(got) \cup {u.m : u \in Range(unack)}
                                                        \cup (IF sending = Idle THEN {} ELSE {sending.m})
\* what the server no longer holds, the user has seen
AckedShown == acked \subseteq Range(shown)
ShownOnce == kills = 0 => Cardinality(Range(shown)) = Len(shown)
First(m) == CHOOSE i \in 1..Len(shown) : shown[i] = m /\ \A j \in 1..i-1 : shown[j] # m
ShownInOrder == \A a, b \in Range(shown) : a < b => First(a) < First(b)
NoWrongAck == wrongAck = 0
AllArrive == (kills = 0 /\ nt = NT) ~> (Len(got) = NT \/ kills > 0)
AllShown == (ns = NS) ~> (Range(shown) = 1..NS /\ store = <<>>)
\* vacuity
NotTwiceShown == Cardinality(Range(shown)) = Len(shown)
NotResent == ~(sess > 1 /\ \E x \in Range(wire) : x \in peerKeys)
NotLost == ~(kills > 0 /\ Len(got) = NT - 1 /\ nt = NT /\ queue = <<>> /\ unack = <<>> /\ sending = Idle /\ wire = <<>>)
=============================================================================

------------------------------ MODULE Ratchet ------------------------------
(* The double ratchet of package ratchet, at the level of chains ("epochs")  *)
(* and message numbers.  Cryptography is ideal: a message decrypts exactly    *)
(* when the receiver holds, or can derive, the key of its chain position.     *)
(* "a" is the party that completed the key exchange as alice.                 *)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANTS Limit,     \* reordering tolerance per chain (80 in the code)
          MaxMsgs,   \* bound on messages, for exhaustive checking
          Lifetime,  \* lifetime given when saving
          MaxTime,   \* bound on the clock
          Bulk       \* how many messages one Send action may produce

Party == {"a", "b"}
Other(p) == IF p = "a" THEN "b" ELSE "a"

VARIABLES st,     \* [Party -> ratchet state]
          msgs,   \* sequence of all messages ever encrypted
          got,    \* [1..Len(msgs) -> Nat]  how often a message was decrypted
          clock
vars == <<st, msgs, got, clock>>

(* saved is a set of <<epoch, number, timestamp>>; sep/rep are the epochs of   *)
(* the sending and receiving chain, -1 for "none yet".                         *)
InitSt == [p \in Party |->
             IF p = "a"
             THEN [sep |-> -1, rep |-> 0, sc |-> 0, rc |-> 0, prev |-> 0, flag |-> TRUE, saved |-> {}]
             ELSE [sep |-> 0, rep |-> -1, sc |-> 0, rc |-> 0, prev |-> 0, flag |-> FALSE, saved |-> {}]]

Init == st = InitSt /\ msgs = <<>> /\ got = <<>> /\ clock = 0

(* ------------------------------ sending ---------------------------------- *)
EncSt(s) == IF s.flag
            THEN [s EXCEPT !.sep = @ + 2, !.prev = s.sc, !.sc = 1, !.flag = FALSE]
            ELSE [s EXCEPT !.sc = @ + 1]

\* n messages at once: only the first can turn the ratchet
EncMany(p, s, ms, n) ==
    LET s2 == EncSt(s) IN
    <<[s2 EXCEPT !.sc = @ + n - 1],
      ms \o [i \in 1..n |-> [from |-> p, ep |-> s2.sep, num |-> s2.sc + i - 2, prev |-> s2.prev]]>>

Send(p, n) ==
    /\ LET r == EncMany(p, st[p], msgs, n)
       IN /\ st' = [st EXCEPT ![p] = r[1]]
          /\ msgs' = r[2]
    /\ got' = got \o [i \in 1..n |-> 0]
    /\ UNCHANGED clock

(* ------------------------------ receiving -------------------------------- *)
SavedFor(s, m) == {k \in s.saved : k[1] = m.ep /\ k[2] = m.num}
Skips(ep, lo, hi, t) == {<<ep, n, t>> : n \in lo..hi}   \* empty when hi < lo

\* The result of offering message m to state s at time t: <<accepted, new state>>
DecSt(s, m, t) ==
    IF SavedFor(s, m) /= {}
    THEN <<TRUE, [s EXCEPT !.saved = @ \ SavedFor(s, m)]>>
    ELSE IF m.ep = s.rep
    THEN IF m.num < s.rc \/ m.num - s.rc > Limit
         THEN <<FALSE, s>>
         ELSE <<TRUE, [s EXCEPT !.saved = @ \cup Skips(m.ep, s.rc, m.num - 1, t),
                                !.rc = m.num + 1]>>
    ELSE IF m.ep = s.rep + 2 /\ ~s.flag
    THEN IF m.prev < s.rc \/ m.prev - s.rc > Limit \/ m.num > Limit
         THEN <<FALSE, s>>
         ELSE <<TRUE, [s EXCEPT !.saved = @ \cup Skips(s.rep, s.rc, m.prev - 1, t)
                                            \cup Skips(m.ep, 0, m.num - 1, t),
                                !.rep = m.ep, !.rc = m.num + 1, !.flag = TRUE]>>
    ELSE <<FALSE, s>>

Accepts(p, i) == msgs[i].from = Other(p) /\ DecSt(st[p], msgs[i], clock)[1]

Recv(p, i) ==          \* deliver (again) message i to its addressee
    /\ i \in 1..Len(msgs) /\ msgs[i].from = Other(p)
    /\ LET r == DecSt(st[p], msgs[i], clock)
       IN /\ st' = [st EXCEPT ![p] = r[2]]
          /\ got' = IF r[1] THEN [got EXCEPT ![i] = @ + 1] ELSE got
    /\ UNCHANGED <<msgs, clock>>

\* An input that is no message of the peer (forged, damaged, truncated, the
\* party's own message reflected) is refused and changes nothing.
Bad(p) == UNCHANGED vars

(* ------------------------- saving and reloading --------------------------- *)
Live(s, t) == {k \in s.saved : t - k[3] <= Lifetime}
Reload(p) == /\ st' = [st EXCEPT ![p].saved = Live(st[p], clock)]
             /\ UNCHANGED <<msgs, got, clock>>
Save(p) == UNCHANGED vars
Tick(d) == clock' = clock + d /\ UNCHANGED <<st, msgs, got>>

Next == \/ \E p \in Party, n \in Bulk : Len(msgs) + n <= MaxMsgs /\ Send(p, n)
        \/ \E p \in Party, i \in 1..Len(msgs) : Recv(p, i)
        \/ \E p \in Party : Reload(p)
        \/ clock < MaxTime /\ Tick(1)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties -------------------------------- *)
\* C01: a message is accepted at most once ...
AtMostOnce == \A i \in 1..Len(got) : got[i] <= 1
\* ... and every message not yet accepted is acceptable, unless its key was
\* saved and has expired, or it or the chain change it announces would exceed
\* the tolerance.  (A position below rc without a saved key was either accepted
\* or saved once and expired.)
Exceeds(s, m) ==
    \/ m.ep = s.rep /\ m.num - s.rc > Limit
    \/ m.ep = s.rep + 2 /\ (m.prev - s.rc > Limit \/ m.num > Limit)
    \/ m.ep > s.rep + 2
NeverExpires == MaxTime <= Lifetime
Acceptable ==
    NeverExpires =>
    \A i \in 1..Len(msgs) :
      LET p == Other(msgs[i].from) IN
      got[i] = 0 => (Accepts(p, i) \/ Exceeds(st[p], msgs[i]))
\* the chains of the two parties stay within one step of each other, so the
\* "beyond the next chain" case above never arises
InStep == \A p \in Party : st[Other(p)].sep \in {st[p].rep, st[p].rep + 2}
NoFarFuture == \A i \in 1..Len(msgs) : msgs[i].ep <= st[Other(msgs[i].from)].rep + 2
\* C03: no retained key belongs to a message that was already accepted
Erased == \A i \in 1..Len(msgs) :
            got[i] > 0 => ~Accepts(Other(msgs[i].from), i)
SavedSane == \A p \in Party : \A k \in st[p].saved :
                /\ k[3] <= clock
                /\ Cardinality({q \in st[p].saved : q[1] = k[1] /\ q[2] = k[2]}) = 1
\* C02: refusal changes nothing (an action property)
RefusalNeutral == [][(\E p \in Party, i \in 1..Len(msgs) : Recv(p, i) /\ ~Accepts(p, i)) => (UNCHANGED vars)]_vars
\* C03: keys only disappear by use or by expiry
KeysKept == [][\A p \in Party : \A k \in st[p].saved :
                 k \in st'[p].saved
                 \/ (clock - k[3] > Lifetime)
                 \/ (\E i \in 1..Len(msgs) : msgs[i].ep = k[1] /\ msgs[i].num = k[2] /\ got'[i] = got[i] + 1)]_vars

(* reachability, to show that the checks above are not vacuous *)
NotTwoSaved == ~\E p \in Party : \E j, k \in st[p].saved : j[1] /= k[1]
NotExceeded == ~\E i \in 1..Len(msgs) : got[i] = 0 /\ Exceeds(st[Other(msgs[i].from)], msgs[i])
NotRefused == ~\E i \in 1..Len(msgs) : got[i] > 0 /\ ~Accepts(Other(msgs[i].from), i)
=============================================================================

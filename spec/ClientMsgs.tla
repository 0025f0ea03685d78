----------------------------- MODULE ClientMsgs -----------------------------
(* What the user of a client and the contacts may observe, whatever happens to *)
(* the sessions and the process (ClientImpl says how the client gets there).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Peers
VARIABLES up, on, deaf,   \* the process runs; it has a session; the server does not read
          nt, ns,         \* contact -> messages typed for it, messages it sent
          lossy,          \* contact -> typed messages that died with the process
          again,          \* contact -> messages that were not acknowledged when the process died
          kills,
          got, shown, mine, store
vars == <<up, on, deaf, nt, ns, lossy, again, kills, got, shown, mine, store>>
Zero == [p \in Peers |-> 0]
None == [p \in Peers |-> {}]
Nil == [p \in Peers |-> <<>>]
Range(s) == {s[i] : i \in 1..Len(s)}
Init == /\ up = TRUE /\ on = TRUE /\ deaf = FALSE /\ nt = Zero /\ ns = Zero /\ lossy = None /\ again = None /\ kills = 0
        /\ got = Nil /\ shown = Nil /\ mine = Nil /\ store = Nil

Increasing(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
Extends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
\* the first time each message is shown, in order and without gaps
Firsts(s) == SelectSeq([i \in 1..Len(s) |-> IF \E j \in 1..i-1 : s[j] = s[i] THEN 0 ELSE s[i]], LAMBDA x : x # 0)
Times(s, m) == Cardinality({i \in 1..Len(s) : s[i] = m})
\* at any time
Possible(p) ==
    /\ Increasing(got'[p]) /\ Range(got'[p]) \subseteq 1..nt'[p] /\ Extends(got'[p], got[p])
    /\ Increasing(mine'[p]) /\ Range(mine'[p]) \subseteq 1..nt'[p] /\ Extends(mine'[p], mine[p])
    /\ Extends(shown'[p], shown[p])
    /\ Firsts(shown'[p]) = [i \in 1..Cardinality(Range(shown'[p])) |-> i] /\ Range(shown'[p]) \subseteq 1..ns'[p]
    /\ \A m \in Range(shown'[p]) : Times(shown'[p], m) <= IF m \in again[p] THEN 1 + kills ELSE 1
    \* what the server was told to forget has been shown
    /\ (1..ns'[p]) \ Range(store'[p]) \subseteq Range(shown'[p])
\* once the client had time
Echoed(p) == \A m \in 1..nt'[p] : m \in Range(mine'[p]) \cup lossy[p]
Arrived(p) == (1..nt'[p]) \ Range(got'[p]) \subseteq lossy[p]
Delivered(p) == store'[p] = <<>> /\ Range(shown'[p]) = 1..ns'[p]
Settled == \A p \in Peers : /\ Echoed(p)
                            /\ on' /\ ~deaf' => Arrived(p) /\ Delivered(p)
\* the process dies: what was typed and is not there may be lost, what was not acknowledged is shown again
Died == /\ lossy' = [p \in Peers |-> lossy[p] \cup ((1..nt'[p]) \ Range(got'[p])) \cup ((1..nt'[p]) \ Range(mine'[p]))]
        /\ again' = [p \in Peers |-> again[p] \cup Range(store'[p])]
        /\ kills' = kills + 1
Same == UNCHANGED <<lossy, again, kills>>
=============================================================================

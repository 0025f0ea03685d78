------------------------------- MODULE KxGen -------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Peers, Old, Len0, Calls
VARIABLES hist, done, up, on, mode, waiting
gv == <<hist, done, up, on, mode, waiting>>
R(s) == RandomElement(s)
New == Peers \ {Old}
Some(x) == IF R(1..5) = 1 THEN Old ELSE R(New)
GInit == hist = <<>> /\ done = FALSE /\ up = TRUE /\ on = TRUE /\ mode = "" /\ waiting = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<done, mode>>
Same == UNCHANGED <<up, on, waiting>>
Begin == {"named", "raw", "old", "keys", "nick", "sig", "self", "kx", "key", "mode", "alter", "cut", "random", "altk"}
Fetch == {"no", "wrongpass", "keys", "nick", "sig", "self", "nopin", "alter", "cut", "random"}
Find == {"nosuch", "keys", "nick", "sig"}
Answer == {"other", "alter", "cut", "random"}
Kind(s, n) == IF R(1..n) = 1 THEN R(s) ELSE ""
First == IF mode = "pin" THEN "join" ELSE "hello"
Msg(op, p, kind, k, j) == [op |-> op, p |-> p, q |-> R(Peers), kind |-> kind, d |-> R(0..99999999), k |-> k, j |-> j]
Deliver(p, k, j) ==
    \/ Log(Msg(First, p, Kind(Begin, 2), k, j))
    \/ Log(Msg("answer", p, Kind(Answer, 3), k, j))
    \/ Log(Msg("replay", p, Kind({"other"}, 2), k, j))
Choose == mode = "" /\ mode' = R({"pin", "dir"}) /\ UNCHANGED <<hist, done, up, on, waiting>>
Step ==
    /\ Len(hist) < Len0 /\ mode # ""
    /\ \/ \E x \in 1..8 : up /\ Deliver(Some(hist), "", 0) /\ UNCHANGED <<up, on>> /\ waiting' = (waiting \/ ~on)
       \/ up /\ on /\ Deliver(Some(hist), "cut", R(0..60)) /\ on' = FALSE /\ UNCHANGED up /\ waiting' = TRUE
       \/ \E x \in 1..3 : up /\ on /\ Deliver(Some(hist), R(Calls), R(1..60)) /\ up' = FALSE /\ on' = FALSE /\ waiting' = TRUE
       \/ \E x \in 1..3 : up /\ on /\ mode = "pin" /\ Log([op |-> "offer", k |-> ""]) /\ Same
       \/ \E x \in 1..8 : up /\ on /\ mode = "pin" /\ Log(Msg("fetch", Some(hist), Kind(Fetch, 2), "", 0)) /\ Same
       \/ \E x \in 1..8 : up /\ on /\ mode = "dir" /\ Log(Msg("find", Some(hist), Kind(Find, 2), "", 0)) /\ Same
       \/ \E x \in 1..2 : up /\ on /\ Log(Msg("wreset", Some(hist), "", "", 0)) /\ Same
       \/ \E x \in 1..2 : up /\ on /\ Log([op |-> R({"cut", "offline"})]) /\ on' = FALSE /\ UNCHANGED <<up, waiting>>
       \/ up /\ Log([op |-> "kill"]) /\ up' = FALSE /\ on' = FALSE /\ UNCHANGED waiting
       \/ \E x \in 1..8 : up /\ ~on /\ Log([op |-> "online"]) /\ on' = TRUE /\ UNCHANGED up /\ waiting' = FALSE
       \/ \E x \in 1..28 : ~up /\ Log([op |-> "start"]) /\ up' = TRUE /\ on' = TRUE /\ waiting' = FALSE
LastStep == IF ~up THEN Append(hist, [op |-> "start"]) ELSE IF ~on THEN Append(hist, [op |-> "online"]) ELSE hist
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, up, on, mode, waiting>>
          /\ PrintT("TRACE " \o ToJson(<<[op |-> "mode", kind |-> mode]>> \o LastStep))
GSpec == GInit /\ [][Choose \/ Step \/ Finish]_gv
=============================================================================

---------------------------- MODULE ClientMsgsGen ----------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Peers, Len0, Kills, Calls
VARIABLES hist, done, up, on, deaf, hold
gv == <<hist, done, up, on, deaf, hold>>
R(s) == RandomElement(s)
GInit == hist = <<>> /\ done = FALSE /\ up = TRUE /\ on = TRUE /\ deaf = FALSE /\ hold = 0
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Keep == UNCHANGED <<up, on, deaf>>
Drop == on' = FALSE /\ deaf' = FALSE /\ hold' = 0
Burst(o, j, k) == [op |-> o, p |-> R(Peers), q |-> R(Peers), n |-> R(0..5), i |-> R(0..6), d |-> R(0..99), kind |-> R({"", "mix"}), j |-> j, k |-> k]
Windows == {"/q p", "/q q", "/wc", "/w 0", "/w 1", "/w 2", "/save", "/restore", "/list addressbook", "/list conversations", "/nosuch", "/m nobody hello", "/info p", "/q nobody", "/w 77", "/m"}
Step ==
    /\ Len(hist) < Len0
    /\ \/ \E x \in 1..2 : up /\ Log([op |-> "type", p |-> R(Peers), n |-> R(1..2), d |-> R(0..99), kind |-> R({"", "", "me", "win"})])
                          /\ Keep /\ hold' = IF hold > 0 THEN hold + 1 ELSE 0
       \/ \E x \in 1..2 : up /\ ~deaf /\ Log([op |-> "tell", p |-> R(Peers), n |-> R(1..4), d |-> R(0..99), kind |-> R({"", "me"})])
                          /\ Keep /\ hold' = IF hold > 0 THEN hold + 1 ELSE 0
       \/ \E x \in 1..2 : up /\ ~deaf /\ hold = 0 /\ Log(Burst("both", 0, "")) /\ Keep /\ UNCHANGED hold
       \/ up /\ on /\ Log(Burst("race", R(1..400), "")) /\ Drop /\ UNCHANGED up
       \/ up /\ on /\ ~deaf /\ Log([op |-> "unseen", p |-> R(Peers), n |-> R(1..3), d |-> R(0..99), kind |-> ""]) /\ Drop /\ UNCHANGED up
       \/ up /\ on /\ ~deaf /\ hold = 0 /\ Log([op |-> "deaf"]) /\ deaf' = TRUE /\ UNCHANGED <<up, on, hold>>
       \/ up /\ on /\ ~deaf /\ hold = 0 /\ Log([op |-> "hold"]) /\ hold' = 1 /\ Keep
       \/ up /\ on /\ hold > 0 /\ Log([op |-> "release"]) /\ hold' = 0 /\ Keep
       \/ up /\ on /\ Log([op |-> R({"cut", "cut", "offline"})]) /\ Drop /\ UNCHANGED up
       \/ \E x \in 1..4 : up /\ ~on /\ Log([op |-> "online"]) /\ on' = TRUE /\ UNCHANGED <<up, deaf, hold>>
       \/ up /\ on /\ ~deaf /\ hold = 0 /\ R(1..4) = 1 /\ Log([op |-> "flood", p |-> R(Peers), n |-> R(33..40), q |-> R(Peers), i |-> R(0..2), d |-> R(0..9999), kind |-> ""]) /\ Keep /\ UNCHANGED hold
       \/ up /\ on /\ ~deaf /\ hold = 0 /\ R(1..2) = 1 /\ Log([op |-> "busy", p |-> R(Peers), n |-> R(1..3), d |-> R(0..99), j |-> R({0, 20, 60, 150})]) /\ Keep /\ UNCHANGED hold
       \/ up /\ ~deaf /\ hold = 0 /\ Log([op |-> "forge", p |-> R(Peers), q |-> R(Peers), d |-> R(0..9999),
                 kind |-> R({"other", "other", "replay", "alter", "cut", "random", "stranger", "nobody", "proxy", "server", "self"})]) /\ Keep /\ UNCHANGED hold
       \/ up /\ ~deaf /\ hold = 0 /\ Log([op |-> "junk", p |-> R(Peers), d |-> R(0..9999),
                 kind |-> IF on THEN R({"notcrpc", "command", "badzlib", "badcomp", "huge", "body", "body", "janitor", "ackbad"}) ELSE R({"command", "badzlib", "body"})]) /\ Keep /\ UNCHANGED hold
       \/ up /\ ~deaf /\ hold = 0 /\ Log([op |-> "window", k |-> R(Windows)]) /\ Keep /\ UNCHANGED hold
       \/ Kills /\ up /\ Log([op |-> "kill"]) /\ up' = FALSE /\ Drop
       \/ \E x \in 1..3 : Kills /\ up /\ on /\ ~deaf /\ hold = 0 /\ Log(Burst("crash", R(1..40), R(Calls))) /\ up' = FALSE /\ Drop
       \/ \E x \in 1..2 : Kills /\ up /\ on /\ ~deaf /\ hold = 0 /\ Log(Burst("rkill", R(1..600), "")) /\ up' = FALSE /\ Drop
       \/ \E x \in 1..9 : ~up /\ Log([op |-> "start"]) /\ up' = TRUE /\ on' = TRUE /\ UNCHANGED <<deaf, hold>>
       \/ \E x \in 1..4 : hold > 5 /\ Log([op |-> "release"]) /\ hold' = 0 /\ Keep
LastStep == IF ~up THEN Append(hist, [op |-> "start"]) ELSE IF ~on THEN Append(hist, [op |-> "online"]) ELSE IF deaf THEN hist \o <<[op |-> "cut"], [op |-> "online"]>> ELSE hist
Probe == <<[op |-> "type", p |-> "p", n |-> 1, d |-> 1], [op |-> "tell", p |-> "p", n |-> 1, d |-> 1], [op |-> "both", p |-> "q", q |-> "q", n |-> 1, i |-> 1]>>
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, up, on, deaf, hold>> /\ PrintT("TRACE " \o ToJson(LastStep \o Probe))
GSpec == GInit /\ [][Step \/ Finish]_gv
=============================================================================

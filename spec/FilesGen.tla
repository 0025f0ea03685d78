------------------------------ MODULE FilesGen ------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Peers, Len0, Calls
VARIABLES hist, done, up, on
gv == <<hist, done, up, on>>
R(s) == RandomElement(s)
GInit == hist = <<>> /\ done = FALSE /\ up = TRUE /\ on = TRUE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Kinds == {"skip", "dup", "alter", "long", "offset", "empty", "again", "restart", "stop", "back", "over", "size", "short", "digest", "nonew"}
Files(k, j) == [op |-> "files", p |-> R(Peers), q |-> R(Peers), n |-> R(1..4), d |-> R(0..99999999), kind |-> IF R(1..3) = 1 THEN R(Kinds) ELSE "", k |-> k, j |-> j]
Step ==
    /\ Len(hist) < Len0
    /\ \/ \E x \in 1..10 : up /\ Log(Files("", 0)) /\ UNCHANGED <<up, on>>
       \/ up /\ on /\ Log(Files("cut", R(1..80))) /\ on' = FALSE /\ UNCHANGED up
       \/ \E x \in 1..2 : up /\ on /\ Log(Files(R(Calls), R(1..60))) /\ up' = FALSE /\ on' = FALSE
       \/ \E x \in 1..2 : up /\ Log([op |-> "give", p |-> R(Peers), n |-> R(1..3), d |-> R(0..7)]) /\ UNCHANGED <<up, on>>
       \/ up /\ Log([op |-> R({"type", "tell"}), p |-> R(Peers), n |-> 1, d |-> R(0..99)]) /\ UNCHANGED <<up, on>>
       \/ up /\ on /\ Log([op |-> R({"cut", "offline"})]) /\ on' = FALSE /\ UNCHANGED up
       \/ up /\ Log([op |-> "kill"]) /\ up' = FALSE /\ on' = FALSE
       \/ \E x \in 1..4 : up /\ ~on /\ Log([op |-> "online"]) /\ on' = TRUE /\ UNCHANGED up
       \/ \E x \in 1..9 : ~up /\ Log([op |-> "start"]) /\ up' = TRUE /\ on' = TRUE
LastStep == (IF ~up THEN Append(hist, [op |-> "start"]) ELSE IF ~on THEN Append(hist, [op |-> "online"]) ELSE hist)
            \o <<[op |-> "files", p |-> "p", q |-> "q", n |-> 2, d |-> R(0..9999), kind |-> "", k |-> "", j |-> 0], [op |-> "give", p |-> "p", n |-> 1, d |-> 3]>>
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, up, on>> /\ PrintT("TRACE " \o ToJson(LastStep))
GSpec == GInit /\ [][Step \/ Finish]_gv
=============================================================================

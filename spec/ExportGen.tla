------------------------------ MODULE ExportGen ------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Servers, Clients, Addrs, Len0
VARIABLES hist, done, nb
R(s) == RandomElement(s)
GInit == /\ done = FALSE /\ nb = 1
         /\ hist = <<[op |-> "reconf", p |-> R(Servers), k |-> R(Addrs), b |-> R(BOOLEAN)],
                     [op |-> "export", p |-> R(Servers), k |-> R(Addrs)]>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Damage == {"trunc", "garbage", "ident", "empty", "char", "text"}
Harmless == {"", "wrap", "space"}
Step == /\ Len(hist) < Len0
        /\ \/ \E s \in Servers : Log([op |-> "reconf", p |-> s, k |-> R(Addrs \cup {""}), b |-> R(BOOLEAN)]) /\ UNCHANGED nb
           \/ \E s \in Servers, i \in 1..2 : Log([op |-> "export", p |-> s, k |-> IF R(1..3) = 1 THEN "" ELSE R(Addrs), v |-> IF R(1..6) = 1 THEN "f" ELSE R({"", "v"})]) /\ nb' = nb + 1
           \/ \E c \in {R(Clients)} : Log([op |-> "exportc", p |-> c, v |-> IF R(1..6) = 1 THEN "f" ELSE R({"", "v"})]) /\ nb' = nb + 1
           \/ \E c \in Clients, x \in 1..10 :
                 Log([op |-> "import", p |-> c, n |-> R(1..nb), i |-> IF R(1..6) = 1 THEN R(1..nb) ELSE 0, d |-> R(0..999),
                      v |-> IF x <= 6 THEN R(Harmless) ELSE R(Damage), b |-> R(1..2) = 1, k |-> R({"yes", "y", "yes", "no", "", "Yes", "yesno", "eof"}),
                      kind |-> IF R(1..5) = 1 THEN "kill" ELSE ""]) /\ UNCHANGED nb
           \/ \E s \in Servers, x \in 1..2 :
                 Log([op |-> "importc", p |-> s, n |-> R(1..nb), i |-> 0, d |-> R(0..999), v |-> IF x = 1 THEN "" ELSE R(Damage \cup Harmless),
                      b |-> R(1..3) = 1, k |-> "yes"]) /\ UNCHANGED nb
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, nb>> /\ PrintT("TRACE " \o ToJson(hist))
GSpec == GInit /\ [][Step \/ Finish]_<<hist, done, nb>>
=============================================================================

--------------------------- MODULE AddressBookGen ---------------------------
EXTENDS AddressBook, TLC, Json
CONSTANT Len0, Wanted
VARIABLES hist, done
gvars == <<vars, hist, done>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
GInit == Init /\ hist = <<>> /\ done = FALSE
\* the generator need not guess how clashes are resolved: it only tracks identities
Step == /\ Len(hist) < Len0 /\ res' = res
        /\ \/ \E i \in Ids, k \in 1..2 : \E n \in {RandomElement(Wanted)} : UNCHANGED book /\ Log([op |-> "add", k |-> i, v |-> n])
           \/ \E i \in Ids : UNCHANGED book /\ Log([op |-> "del", k |-> i])
           \/ \E i \in {RandomElement(Ids)} : UNCHANGED book /\ Log([op |-> "find", k |-> i])
           \/ \E n \in {RandomElement(Nicks)} : UNCHANGED book /\ Log([op |-> "findnick", v |-> n])
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>> /\ PrintT("TRACE " \o ToJson(hist))
GSpec == GInit /\ [][Step \/ Finish]_gvars
=============================================================================

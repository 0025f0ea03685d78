----------------------------- MODULE ChannelGen -----------------------------
EXTENDS Channel, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
gvars == <<vars, hist, done>>
Log(r) == hist' = Append(hist, r) /\ done' = FALSE
GInit == Init /\ hist = <<>> /\ done = FALSE
Evil ==
       \* the attacker's: altered, earlier, later, other direction, other session
       \/ \E d \in Dir : pos[d] < sent[d] /\ Read(d, [s |-> 0, d |-> d, i |-> pos[d] + 1, mut |-> TRUE])
             /\ Log([op |-> "read", p |-> d, q |-> d, i |-> pos[d] + 1, n |-> 0, b |-> TRUE])
       \/ \E d, e \in Dir : sent[e] > 0 /\ \E i \in {RandomElement(1..sent[e])} :
             Read(d, [s |-> 0, d |-> e, i |-> i, mut |-> FALSE])
             /\ Log([op |-> "read", p |-> d, q |-> e, i |-> i, n |-> 0, b |-> FALSE])
       \/ \E d, e \in Dir : d /= e /\ sent[e] > pos[d] /\ 
             Read(d, [s |-> 0, d |-> e, i |-> pos[d] + 1, mut |-> FALSE])
             /\ Log([op |-> "read", p |-> d, q |-> e, i |-> pos[d] + 1, n |-> 0, b |-> FALSE])
       \/ \E d, e \in Dir : \E i \in 1..3 : Read(d, [s |-> 1, d |-> e, i |-> pos[d] + i, mut |-> FALSE])
             /\ Log([op |-> "read", p |-> d, q |-> e, i |-> pos[d] + i, n |-> 1, b |-> FALSE])
Step ==
    /\ Len(hist) < Depth
    /\ \/ \E d \in Dir : Write(d) /\ Log([op |-> "write", p |-> d])
       \/ \E d \in Dir : WriteTooBig(d) /\ Log([op |-> "toobig", p |-> d])
       \* the honest delivery
       \/ \E d \in Dir : pos[d] < sent[d] /\ Read(d, [s |-> 0, d |-> d, i |-> pos[d] + 1, mut |-> FALSE])
             /\ Log([op |-> "read", p |-> d, q |-> d, i |-> pos[d] + 1, n |-> 0, b |-> FALSE])
       \/ \E d \in Dir : pos[d] < sent[d] /\ Read(d, [s |-> 0, d |-> d, i |-> pos[d] + 1, mut |-> FALSE])
             /\ Log([op |-> "read", p |-> d, q |-> d, i |-> pos[d] + 1, n |-> 0, b |-> FALSE])
       \/ RandomElement(1..6) = 1 /\ Evil
       \/ \E d \in Dir, n \in BurstSizes : sent[d] + n <= MaxSent /\ (\A k \in 1..Len(read[d]) : read[d][k] /= 0) /\ Burst(d, n)
             /\ Log([op |-> "burst", p |-> d, n |-> n])
       \/ \E d \in Dir : Len(hist) > Depth - 4 /\ Cut(d) /\ Log([op |-> "cut", p |-> d])
Finish == Len(hist) = Depth /\ ~done /\ PrintT("TRACE " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][Step \/ Finish]_gvars
=============================================================================

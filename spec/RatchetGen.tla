---------------------------- MODULE RatchetGen ----------------------------
(* Behaviours of Ratchet for replay into the implementation.  Each behaviour *)
(* is a sequence of operations; expected outcomes are not emitted, they are   *)
(* recomputed when the recorded execution is checked against RatchetTrace.    *)
EXTENDS Ratchet, TLC, Json
CONSTANTS Depth, Ops
VARIABLES hist, done
gvars == <<vars, hist, done>>
Log(r) == hist' = Append(hist, r) /\ done' = FALSE
Undelivered(p) == {i \in 1..Len(msgs) : msgs[i].from = Other(p) /\ got[i] = 0}
Delivered(p) == {i \in 1..Len(msgs) : msgs[i].from = Other(p) /\ got[i] > 0}
GInit == Init /\ hist = <<>> /\ done = FALSE
Step ==
    /\ Len(hist) < Depth
    /\ \/ \E p \in Party, n \in Bulk : Len(msgs) + n <= MaxMsgs /\ Send(p, n) /\ Log([op |-> "send", p |-> p, n |-> n])
       \/ \E p \in Party : Undelivered(p) /= {} /\ LET i == RandomElement(Undelivered(p))
             IN Recv(p, i) /\ Log([op |-> "recv", p |-> p, i |-> i])
       \/ \E p \in Party : Undelivered(p) /= {} /\ LET i == CHOOSE x \in Undelivered(p) : \A y \in Undelivered(p) : x <= y
             IN Recv(p, i) /\ Log([op |-> "recv", p |-> p, i |-> i])
       \/ \E p \in Party : Undelivered(p) /= {} /\ LET i == CHOOSE x \in Undelivered(p) : \A y \in Undelivered(p) : x >= y
             IN Recv(p, i) /\ Log([op |-> "recv", p |-> p, i |-> i])
       \/ \E p \in Party : Delivered(p) /= {} /\ LET i == RandomElement(Delivered(p))
             IN Recv(p, i) /\ Log([op |-> "recv", p |-> p, i |-> i])
       \/ "bad" \in Ops /\ \E p \in Party : \E i \in {RandomElement(0..Len(msgs))} : Bad(p) /\ Log([op |-> "bad", p |-> p, i |-> i])
       \/ "reload" \in Ops /\ \E p \in Party : Reload(p) /\ Log([op |-> "reload", p |-> p])
       \/ "save" \in Ops /\ \E p \in Party : Save(p) /\ Log([op |-> "save", p |-> p])
       \/ "tick" \in Ops /\ \E d \in 1..3 : clock < MaxTime /\ Tick(d) /\ Log([op |-> "tick", d |-> d])
Finish == Len(hist) = Depth /\ ~done /\ PrintT("TRACE " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GNext == Step \/ Finish
GSpec == GInit /\ [][GNext]_gvars
============================================================================

------------------------------ MODULE InidbGen ------------------------------
EXTENDS Inidb, TLC, Json
CONSTANT Len0, Faults
VARIABLES hist, done
gvars == <<vars, hist, done>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
GInit == Init /\ hist = <<>> /\ done = FALSE
T == RandomElement(Tables)
Step ==
    /\ Len(hist) < Len0
    /\ \/ \E t \in Tables \ {""} : NewTable(t) /\ Log([op |-> "newtable", t |-> t])
       \/ \E t \in Tables \ {""} : RandomElement(1..5) = 1 /\ DelTable(t) /\ Log([op |-> "deltable", t |-> t])
       \/ \E t \in Tables : \E k \in {RandomElement(Keys)} :
             \/ RandomElement(1..3) = 1 /\ Del(t, k) /\ Log([op |-> "del", t |-> t, k |-> k])
             \/ Get(t, k) /\ Log([op |-> "get", t |-> t, k |-> k])
             \/ \E v \in {RandomElement(Values)} : Set(t, k, v) /\ Log([op |-> "set", t |-> t, k |-> k, v |-> v])
       \/ \E i \in 1..2 : Save /\ Log([op |-> "save", i |-> i])
       \/ Reopen /\ Log([op |-> "reopen"])
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
          /\ PrintT("TRACE " \o ToJson(IF Faults THEN Append(hist, [op |-> "savefault"]) ELSE hist))
GSpec == GInit /\ [][Step \/ Finish]_gvars
=============================================================================

------------------------------- MODULE Inidb -------------------------------
(* The ini database as a map of tables of records, in memory and on disk.      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Tables, Keys, Values, Depth
VARIABLES tabs, recs,      \* in memory: set of tables, set of <<table, key, value>>
          dtabs, drecs,    \* as last saved
          res              \* result of the last call
vars == <<tabs, recs, dtabs, drecs, res>>
Init == tabs = {""} /\ recs = {} /\ dtabs = {""} /\ drecs = {} /\ res = "ok"
Of(t, k) == {r \in recs : r[1] = t /\ r[2] = k}
Mem == UNCHANGED <<dtabs, drecs>>
NewTable(t) == tabs' = tabs \cup {t} /\ res' = "ok" /\ UNCHANGED recs /\ Mem
DelTable(t) == /\ res' = IF t \in tabs THEN "ok" ELSE "notfound"
               /\ tabs' = tabs \ {t} /\ recs' = {r \in recs : r[1] /= t} /\ Mem
Set(t, k, v) == /\ res' = IF t \in tabs THEN "ok" ELSE "notfound"
                /\ recs' = IF t \in tabs THEN (recs \ Of(t, k)) \cup {<<t, k, v>>} ELSE recs
                /\ UNCHANGED tabs /\ Mem
Del(t, k) == /\ res' = IF t \in tabs THEN "ok" ELSE "notfound"
             /\ recs' = recs \ Of(t, k) /\ UNCHANGED tabs /\ Mem
Get(t, k) == /\ res' = IF Of(t, k) = {} THEN "notfound" ELSE (CHOOSE r \in Of(t, k) : TRUE)[3]
             /\ UNCHANGED <<tabs, recs>> /\ Mem
Save == dtabs' = tabs /\ drecs' = recs /\ res' = "ok" /\ UNCHANGED <<tabs, recs>>
Reopen == tabs' = dtabs \cup {""} /\ recs' = drecs /\ res' = "ok" /\ Mem
Next == \/ \E t \in Tables \ {""} : NewTable(t) \/ DelTable(t)
        \/ \E t \in Tables, k \in Keys : Del(t, k) \/ Get(t, k) \/ \E v \in Values : Set(t, k, v)
        \/ Save \/ Reopen
Spec == Init /\ [][Next]_vars
OneValue == \A r, s \in recs : (r[1] = s[1] /\ r[2] = s[2]) => r = s
InTable == \A r \in recs : r[1] \in tabs
=============================================================================

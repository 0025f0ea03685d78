----------------------------- MODULE IdentityGen -----------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Msgs, Len0
VARIABLES hist, done
Who == {"A", "B", "C"}
R(s) == RandomElement(s)
GInit == done = FALSE /\ hist = <<[op |-> "new", p |-> "A", k |-> R(Names), v |-> R(Names)],
                                   [op |-> "new", p |-> "B", k |-> R(Names), v |-> R(Names)],
                                   [op |-> "new", p |-> "C", k |-> R(Names), v |-> R(Names)]>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Fields == {"name", "nick", "sigkey", "key", "keyid", "identity", "digest", "signature", "sigpair", "forgedhandle", "all"}
Step == /\ Len(hist) < Len0
        /\ \/ \E p \in Who : Log([op |-> "trip", p |-> p])
           \/ \E f \in Fields, b \in BOOLEAN : Log([op |-> "alter", p |-> R(Who), q |-> R(Who), k |-> f, b |-> b])
           \/ \E n \in 0..3 : Log([op |-> "bytes", p |-> R(Who), n |-> n])
           \/ \E p \in Who, m \in Msgs : Log([op |-> "sign", p |-> p, k |-> m])
           \/ \E i \in 1..4 : LET s == SelectSeq(hist, LAMBDA h : h.op = "sign") IN
                 s /= <<>> /\ LET x == s[R(1..Len(s))] IN
                    Log([op |-> "verify", p |-> x.p, k |-> x.k, q |-> IF i > 2 THEN x.p ELSE R(Who),
                         v |-> IF i \in {1, 3} THEN x.k ELSE R(Msgs), b |-> R(1..4) = 1])
           \/ \E n \in 0..7 : Log([op |-> "str", p |-> R(Who), n |-> n])
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("TRACE " \o ToJson(hist))
GSpec == GInit /\ [][Step \/ Finish]_<<hist, done>>
=============================================================================

------------------------------- MODULE BlobGen -------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Passwords, Len0
VARIABLES hist, done
R(s) == RandomElement(s)
Ps == {"1", "2"}
GInit == done = FALSE /\ hist = <<[op |-> "pack", p |-> "1", k |-> R(Passwords)], [op |-> "pack", p |-> "2", k |-> R(Passwords)]>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Ways == {"flip", "salt", "nonce", "tag", "trunc", "short", "last", "ext", "empty", "splice"}
Pw(p) == (CHOOSE i \in 1..Len(hist) : hist[i].op = "pack" /\ hist[i].p = p
                                      /\ \A j \in (i+1)..Len(hist) : ~(hist[j].op = "pack" /\ hist[j].p = p))
Step == /\ Len(hist) < Len0
        /\ \/ \E p \in Ps : R(1..5) = 1 /\ Log([op |-> "pack", p |-> p, k |-> R(Passwords)])
           \/ \E p \in Ps, i \in 1..2 : Log([op |-> "open", p |-> p, q |-> p, k |-> hist[Pw(p)].k, v |-> ""])
           \/ \E p \in Ps, w \in Ways : Log([op |-> "open", p |-> p, q |-> R(Ps), k |-> hist[Pw(p)].k, v |-> w])
           \/ \E p \in Ps, k \in Passwords : Log([op |-> "open", p |-> p, q |-> p, k |-> k, v |-> ""])
           \/ \E w \in Ways \cup {""} : Log([op |-> "nonce", k |-> R(Passwords), v |-> IF w = "splice" THEN "" ELSE w])
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("TRACE " \o ToJson(hist))
GSpec == GInit /\ [][Step \/ Finish]_<<hist, done>>
=============================================================================

------------------------------ MODULE Channel ------------------------------
(* An established session of package session: two directions of frames over a *)
(* wire owned by an attacker, who holds every frame of this session and of     *)
(* others.  Ideal authenticated encryption: a frame opens only at the reader   *)
(* of its direction and session, and only at its own position.                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxSent, Sessions, BurstSizes
Dir == {"ab", "ba"}
VARIABLES sent,   \* [Dir -> Nat] messages written successfully
          pos,    \* [Dir -> Nat] frames the reader has consumed
          read,   \* [Dir -> Seq] results of the reads: message number, or 0 for an error
          cut     \* [Dir -> BOOLEAN] the byte stream itself was destroyed
vars == <<sent, pos, read, cut>>
Init == /\ sent = [d \in Dir |-> 0] /\ pos = [d \in Dir |-> 0]
        /\ read = [d \in Dir |-> <<>>] /\ cut = [d \in Dir |-> FALSE]

Write(d) == sent' = [sent EXCEPT ![d] = @ + 1] /\ UNCHANGED <<pos, read, cut>>
\* over the size limit: refused, and nothing happened
WriteTooBig(d) == UNCHANGED vars

\* A frame: session, direction, index (1-based) and whether it was altered.
Genuine(d, f) == f.s = 0 /\ f.d = d /\ ~f.mut /\ f.i = pos[d] + 1
Read(d, f) ==
    /\ ~cut[d]
    /\ f.s = 0 => f.i \in 1..sent[f.d]
    /\ pos' = [pos EXCEPT ![d] = @ + 1]
    /\ read' = [read EXCEPT ![d] = Append(@, IF Genuine(d, f) THEN f.i ELSE 0)]
    /\ UNCHANGED <<sent, cut>>
\* The attacker destroys the framing or closes the connection.
Cut(d) == /\ ~cut[d] /\ cut' = [cut EXCEPT ![d] = TRUE]
          /\ read' = [read EXCEPT ![d] = Append(@, 0)] /\ UNCHANGED <<sent, pos>>
\* n further messages written and faithfully delivered
Burst(d, n) == /\ ~cut[d] /\ sent[d] = pos[d]
               /\ sent' = [sent EXCEPT ![d] = @ + n] /\ pos' = [pos EXCEPT ![d] = @ + n]
               /\ read' = [read EXCEPT ![d] = @ \o [i \in 1..n |-> pos[d] + i]]
               /\ UNCHANGED cut

Frames == [s : Sessions, d : Dir, i : 1..MaxSent, mut : BOOLEAN]
Next == \/ \E d \in Dir : sent[d] < MaxSent /\ Write(d)
        \/ \E d \in Dir : WriteTooBig(d)
        \/ \E d \in Dir, f \in Frames : Len(read[d]) < MaxSent /\ Read(d, f)
        \/ \E d \in Dir : Len(read[d]) < MaxSent /\ Cut(d)
Spec == Init /\ [][Next]_vars

\* C04: the n-th read is the n-th message or an error; hence without errors the
\* messages read are a prefix of those written.
InOrder == \A d \in Dir : \A n \in 1..Len(read[d]) : read[d][n] \in {0, n}
PrefixUntilError == \A d \in Dir :
    LET r == read[d] IN
    (\A n \in 1..Len(r) : r[n] /= 0) => (Len(r) <= sent[d] /\ r = [n \in 1..Len(r) |-> n])
NeverUnsent == \A d \in Dir : \A n \in 1..Len(read[d]) : read[d][n] <= sent[d]
NotGapRead == ~\E d \in Dir : \E n \in 1..Len(read[d]) : n > 1 /\ read[d][n] = n /\ read[d][n-1] = 0
=============================================================================

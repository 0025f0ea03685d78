-------------------------------- MODULE Files --------------------------------
(* A client receives files (C19).  File f consists of Total(f) parts; every   *)
(* file carries the same name.  The sender announces a file (part 0) and then *)
(* sends its parts in order, parts of different files in any interleaving.    *)
(* The client deals with one message at a time, in steps between which it can *)
(* die; the message it died of is delivered once more.  A part takes two      *)
(* writes, so that a dead client can leave half of it behind.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NF,        \* files 1..NF
          MaxDie,
          PerFile,   \* a descriptor for each file (otherwise one per sender)
          Rewrite,   \* a part that is there already, or half of it, is written again
          Fresh      \* complete files get a name that is not in use
F == 1..NF
Names == 1..(NF + 1)
Total(f) == f
VARIABLES sent,   \* next message of every file, Total+1 when all are sent
          inbox,  \* messages the server has for the client
          pc,     \* what the client is about to do with the head of the inbox
          spool,  \* half parts in the spool, -1 if there is no spool
          desc,   \* the descriptor(s): which file is announced, 0 if none
          area,   \* name -> <<file, half parts>>
          ann,    \* files that were announced as complete
          dead
vars == <<sent, inbox, pc, spool, desc, area, ann, dead>>
NoFile == <<0, 0>>
D(f) == IF PerFile THEN f ELSE 1
f0 == Head(inbox)[1]
i0 == Head(inbox)[2]
Init == /\ sent = [f \in F |-> 0] /\ inbox = <<>> /\ pc = "idle" /\ spool = [f \in F |-> -1]
        /\ desc = [f \in F |-> 0] /\ area = [n \in Names |-> NoFile] /\ ann = <<>> /\ dead = 0
Send(f) == /\ sent[f] <= Total(f) /\ Len(inbox) < 3
           /\ inbox' = Append(inbox, <<f, sent[f]>>) /\ sent' = [sent EXCEPT ![f] = @ + 1]
           /\ UNCHANGED <<pc, spool, desc, area, ann, dead>>
Go(p) == pc' = p /\ UNCHANGED <<sent, inbox, dead>>
Begin == pc = "idle" /\ inbox # <<>> /\ Go(IF i0 = 0 THEN "desc" ELSE "open") /\ UNCHANGED <<spool, desc, area, ann>>
WriteDesc == pc = "desc" /\ desc' = [desc EXCEPT ![D(f0)] = f0] /\ Go("spool") /\ UNCHANGED <<spool, area, ann>>
MakeSpool == pc = "spool" /\ spool' = [spool EXCEPT ![f0] = 0] /\ Go("ack") /\ UNCHANGED <<desc, area, ann>>
Offset == 2 * (i0 - 1)
Open == /\ pc = "open"
        /\ IF spool[f0] = -1 \/ spool[f0] < Offset \/ (~Rewrite /\ spool[f0] # Offset)
             THEN Go("ack") /\ UNCHANGED spool
             ELSE Go("half") /\ spool' = [spool EXCEPT ![f0] = Offset]
        /\ UNCHANGED <<desc, area, ann>>
Half == pc = "half" /\ spool' = [spool EXCEPT ![f0] = @ + 1] /\ Go("whole") /\ UNCHANGED <<desc, area, ann>>
Whole == pc = "whole" /\ spool' = [spool EXCEPT ![f0] = @ + 1] /\ Go("size") /\ UNCHANGED <<desc, area, ann>>
Size == /\ pc = "size" /\ UNCHANGED <<spool, desc, area, ann>>
        /\ Go(IF desc[D(f0)] # 0 /\ spool[f0] = 2 * Total(desc[D(f0)]) THEN "digest" ELSE "ack")
Digest == pc = "digest" /\ Go(IF spool[f0] = 2 * Total(f0) /\ desc[D(f0)] = f0 THEN "move" ELSE "ack") /\ UNCHANGED <<spool, desc, area, ann>>
Free == {n \in Names : area[n] = NoFile}
Name == IF Fresh THEN CHOOSE n \in Free : \A m \in Free : n <= m ELSE 1
Move == /\ pc = "move" /\ area' = [area EXCEPT ![Name] = <<f0, spool[f0]>>] /\ spool' = [spool EXCEPT ![f0] = -1]
        /\ Go("tell") /\ UNCHANGED <<desc, ann>>
Tell == pc = "tell" /\ ann' = Append(ann, f0) /\ Go("clean") /\ UNCHANGED <<spool, desc, area>>
Clean == pc = "clean" /\ desc' = [desc EXCEPT ![D(f0)] = 0] /\ Go("ack") /\ UNCHANGED <<spool, area, ann>>
Ack == pc = "ack" /\ inbox' = Tail(inbox) /\ pc' = "idle" /\ UNCHANGED <<sent, spool, desc, area, ann, dead>>
Die == pc # "idle" /\ dead < MaxDie /\ dead' = dead + 1 /\ pc' = "idle" /\ UNCHANGED <<sent, inbox, spool, desc, area, ann>>
Client == Begin \/ WriteDesc \/ MakeSpool \/ Open \/ Half \/ Whole \/ Size \/ Digest \/ Move \/ Tell \/ Clean \/ Ack
Next == Client \/ Die \/ \E f \in F : Send(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Client) /\ \A f \in F : WF_vars(Send(f))

Has(f) == {n \in Names : area[n] # NoFile /\ area[n][1] = f}
Intact == \A n \in Names : area[n] = NoFile \/ area[n][2] = 2 * Total(area[n][1])
ToldOnlyComplete == \A k \in 1..Len(ann) : Has(ann[k]) # {}
OncePerSend == \A f \in F : Cardinality(Has(f)) <= 1
Kept == [][\A n \in Names : area[n] # NoFile => area'[n] = area[n]]_vars
AllArrive == <>(\A f \in F : Has(f) # {})
NotHalf == ~(pc = "open" /\ spool[f0] = Offset + 1)
=============================================================================

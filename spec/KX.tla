--------------------------------- MODULE KX ---------------------------------
(* Clients make contact (C17).  The user of one client has the identity of    *)
(* the other (from a rendezvous or a lookup) and begins; the other client     *)
(* answers.  The server delivers messages in order, once more if the receiver *)
(* died of one, and says truthfully who sent them.  "m" sends what it likes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS CheckFrom,  \* only the one who is named can begin
          CheckValid, \* identities are verified
          StoreReply, \* the answer is stored before the ratchet
          SaveFirst,  \* the half ratchet is stored before it is used
          Crossing,   \* both users may begin
          Again,      \* a user can begin twice (as if a lookup did not mind)
          MaxDie, MaxForge
Clients == {"a", "b"}
All == Clients \cup {"m"}
None == <<"", 0>>
VARIABLES id,    \* id[x][y]: what x has stored as the identity of y
          half,  \* the secret with which x began with y
          full,  \* <<own secret, theirs>>
          reply, \* <<message, answer>> that x stored
          inbox, pc, cur, n, dead, forged
vars == <<id, half, full, reply, inbox, pc, cur, n, dead, forged>>
Nothing == <<None, None>>
Init == /\ id = [x \in Clients |-> [y \in All |-> "none"]]
        /\ half = [x \in Clients |-> [y \in All |-> None]]
        /\ full = [x \in Clients |-> [y \in All |-> Nothing]]
        /\ reply = [x \in Clients |-> [y \in All |-> <<>>]]
        /\ inbox = [x \in Clients |-> <<>>] /\ pc = [x \in Clients |-> "idle"]
        /\ cur = [x \in Clients |-> None] /\ n = [x \in All |-> 0] /\ dead = 0 /\ forged = 0
Put(b, y, m) == IF y \in Clients THEN [b EXCEPT ![y] = Append(@, m)] ELSE b
Begin1(x, s) == [t |-> "begin", from |-> x, id |-> x, ok |-> TRUE, s |-> s, to |-> None]
Peer(x) == IF x = "a" THEN "b" ELSE "a"
Fresh(x) == <<x, n[x] + 1>>
\* the user begins
Begin(x) ==
    LET y == Peer(x) IN
    /\ pc[x] = "idle" /\ full[x][y] = Nothing /\ n[x] < 3
    /\ (Again \/ half[x][y] = None)
    /\ (Crossing \/ (n[y] = 0))
    /\ n' = [n EXCEPT ![x] = @ + 1]
    /\ inbox' = Put(inbox, y, Begin1(x, Fresh(x)))
    /\ IF SaveFirst
         THEN /\ id' = [id EXCEPT ![x][y] = "true"] /\ UNCHANGED <<pc, cur>>
              /\ half' = IF half[x][y] = None THEN [half EXCEPT ![x][y] = Fresh(x)] ELSE half
         ELSE pc' = [pc EXCEPT ![x] = "save"] /\ cur' = [cur EXCEPT ![x] = Fresh(x)] /\ UNCHANGED <<id, half>>
    /\ UNCHANGED <<full, reply, dead, forged>>
\* the user's side goes on while messages are handled
Save(x) == /\ pc[x] = "save" /\ id' = [id EXCEPT ![x][Peer(x)] = "true"] /\ half' = [half EXCEPT ![x][Peer(x)] = cur[x]]
           /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<full, reply, inbox, cur, n, dead, forged>>
M(x) == Head(inbox[x])
Ack(x, b) == [b EXCEPT ![x] = Tail(@)]
Ready(x) == pc[x] \in {"idle", "save"} /\ inbox[x] # <<>>
Known(x, y) == half[x][y] # None \/ full[x][y] # Nothing
Accept(m) == m.t = "begin" /\ (CheckFrom => m.id = m.from) /\ (CheckValid => m.ok)
\* nobody has to do anything about it
Ignore(x) == /\ Ready(x)
             /\ IF ~Known(x, M(x).from) THEN ~Accept(M(x)) \/ Known(x, M(x).id)
                ELSE IF full[x][M(x).from] = Nothing THEN ~(M(x).t = "reply" /\ M(x).to = half[x][M(x).from])
                ELSE ~(StoreReply /\ reply[x][M(x).from] # <<>> /\ reply[x][M(x).from][1] = M(x))
             /\ inbox' = Ack(x, inbox) /\ UNCHANGED <<id, half, full, reply, pc, cur, n, dead, forged>>
Resend(x) == LET f == M(x).from IN
             /\ Ready(x) /\ full[x][f] # Nothing /\ StoreReply /\ reply[x][f] # <<>> /\ reply[x][f][1] = M(x)
             /\ inbox' = Ack(x, Put(inbox, f, reply[x][f][2])) /\ UNCHANGED <<id, half, full, reply, pc, cur, n, dead, forged>>
Complete(x) == LET f == M(x).from IN
             /\ Ready(x) /\ half[x][f] # None /\ full[x][f] = Nothing /\ M(x).t = "reply" /\ M(x).to = half[x][f]
             /\ full' = [full EXCEPT ![x][f] = <<half[x][f], M(x).s>>] /\ half' = [half EXCEPT ![x][f] = None]
             /\ inbox' = Ack(x, inbox) /\ UNCHANGED <<id, reply, pc, cur, n, dead, forged>>
\* the answer, in steps
Ans(x) == [t |-> "reply", from |-> x, id |-> x, ok |-> TRUE, s |-> cur[x], to |-> M(x).s]
Answer(x) == /\ pc[x] = "idle" /\ inbox[x] # <<>> /\ ~Known(x, M(x).from) /\ Accept(M(x)) /\ ~Known(x, M(x).id)
             /\ n' = [n EXCEPT ![x] = @ + 1] /\ cur' = [cur EXCEPT ![x] = Fresh(x)]
             /\ id' = [id EXCEPT ![x][M(x).id] = IF M(x).ok THEN "true" ELSE "other"]
             /\ pc' = [pc EXCEPT ![x] = "reply"] /\ UNCHANGED <<half, full, reply, inbox, dead, forged>>
Store(x) == /\ pc[x] = "reply" /\ reply' = [reply EXCEPT ![x][M(x).id] = <<M(x), Ans(x)>>]
            /\ pc' = [pc EXCEPT ![x] = "ratchet"] /\ UNCHANGED <<id, half, full, inbox, cur, n, dead, forged>>
Ratchet(x) == /\ pc[x] = "ratchet" /\ full' = [full EXCEPT ![x][M(x).id] = <<cur[x], M(x).s>>]
              /\ pc' = [pc EXCEPT ![x] = "send"] /\ UNCHANGED <<id, half, reply, inbox, cur, n, dead, forged>>
Send(x) == /\ pc[x] = "send" /\ inbox' = Ack(x, Put(inbox, M(x).id, Ans(x)))
           /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<id, half, full, reply, cur, n, dead, forged>>
Die(x) == /\ pc[x] \in {"reply", "ratchet", "send"} /\ dead < MaxDie /\ dead' = dead + 1 /\ pc' = [pc EXCEPT ![x] = "idle"]
          /\ UNCHANGED <<id, half, full, reply, inbox, cur, n, forged>>
\* somebody else: all that can be made up or was sent to a client before
Secrets == {<<"m", 1>>} \cup {<<x, k>> : x \in Clients, k \in 1..2}
Forge(x) == /\ forged < MaxForge /\ forged' = forged + 1
            /\ \E w \in All, ok \in BOOLEAN, s \in Secrets :
                  /\ (s[1] = "m" \/ (s[2] <= n[s[1]] /\ ok /\ w = s[1])) \* replayed as it was
                  /\ inbox' = Put(inbox, x, [t |-> "begin", from |-> "m", id |-> w, ok |-> ok, s |-> s, to |-> None])
            /\ UNCHANGED <<id, half, full, reply, pc, cur, n, dead>>
Client(x) == Save(x) \/ Ignore(x) \/ Resend(x) \/ Complete(x) \/ Answer(x) \/ Store(x) \/ Ratchet(x) \/ Send(x)
Next == \E x \in Clients : Begin(x) \/ Client(x) \/ Die(x) \/ Forge(x)
Spec == Init /\ [][Next]_vars /\ \A x \in Clients : WF_vars(Client(x))

TrueIdentity == \A x \in Clients, y \in Clients : id[x][y] \in {"none", "true"}
Authentic == \A x \in Clients, y \in Clients : full[x][y] # Nothing => full[x][y][2][1] = y
Begun == \E x \in Clients : half[x][Peer(x)] # None \/ pc[x] = "save"
Talk == full["a"]["b"] # Nothing /\ full["b"]["a"] = <<full["a"]["b"][2], full["a"]["b"][1]>>
CanTalk == Begun ~> Talk
Kept == [][\A x \in Clients, y \in All : full[x][y] # Nothing => full'[x][y] = full[x][y]]_vars
NotTalk == ~(Talk /\ dead = MaxDie /\ forged = MaxForge)
=============================================================================

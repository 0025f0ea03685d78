------------------------------- MODULE Session -------------------------------
(* One session inside the server: the account's producer of queued messages,  *)
(* the notifier that gives them tags, the writer, the reader of the client's  *)
(* commands, the channels between them, and a client that may misbehave.      *)
(* Bugs holds deviations that the properties must notice.                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS D, M, Reqs, B, Hostile, Bugs
VARIABLES disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, up, down, got, reading, reqs, acked, shown
vars == <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
Tags == 0..(D - 1)
Idle == [pc |-> "wait", m |-> 0, t |-> 0]
Init ==
    /\ disk = 1..M /\ prod = 1 /\ ntfn = <<>> /\ nt = Idle /\ tags = [i \in 1..D |-> i - 1] /\ tmsg = [t \in Tags |-> 0]
    /\ wch = <<>> /\ wr = [pc |-> "wait", it |-> <<>>] /\ hs = [pc |-> "read", t |-> 0] /\ conn = "open" /\ quit = FALSE
    /\ up = <<>> /\ down = <<>> /\ got = {} /\ reading = TRUE /\ reqs = 0 /\ acked = {} /\ shown = <<>>

\* --- the account's producer
Produce ==
    /\ ~quit /\ prod <= M /\ Len(ntfn) < D
    /\ ntfn' = Append(ntfn, prod) /\ prod' = prod + 1
    /\ UNCHANGED <<disk, nt, tags, tmsg, wch, wr, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
\* --- the notifier
NtQuit == nt.pc \in {"wait", "write"} /\ quit /\ nt' = [nt EXCEPT !.pc = "done"] /\ conn' = "closed"
          /\ UNCHANGED <<disk, prod, ntfn, tags, tmsg, wch, wr, hs, quit, up, down, got, reading, reqs, acked, shown>>
NtTake == nt.pc = "wait" /\ ntfn # <<>> /\ nt' = [nt EXCEPT !.pc = "tag", !.m = Head(ntfn)] /\ ntfn' = Tail(ntfn)
          /\ UNCHANGED <<disk, prod, tags, tmsg, wch, wr, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
NtTag == /\ nt.pc = "tag" /\ tags # <<>> /\ tags' = Tail(tags)
         /\ LET t == Head(tags)
            IN IF tmsg[t] # 0 THEN nt' = [nt EXCEPT !.pc = "done"] /\ conn' = "closed" /\ UNCHANGED tmsg
               ELSE nt' = [nt EXCEPT !.pc = "write", !.t = t] /\ tmsg' = [tmsg EXCEPT ![t] = nt.m] /\ UNCHANGED conn
         /\ UNCHANGED <<disk, prod, ntfn, wch, wr, hs, quit, up, down, got, reading, reqs, acked, shown>>
NtWrite == /\ nt.pc = "write" /\ Len(wch) < D /\ wch' = Append(wch, <<"push", nt.t, nt.m>>) /\ nt' = Idle
           /\ UNCHANGED <<disk, prod, ntfn, tags, tmsg, wr, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
\* --- the writer
WrQuit == wr.pc \in {"wait", "drain"} /\ quit /\ wr' = [wr EXCEPT !.pc = "done"] /\ conn' = "closed"
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, hs, quit, up, down, got, reading, reqs, acked, shown>>
WrTake == wr.pc \in {"wait", "drain"} /\ wch # <<>> /\ wch' = Tail(wch)
          /\ wr' = (IF wr.pc = "wait" THEN [pc |-> "send", it |-> Head(wch)] ELSE wr)
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
WrSend == wr.pc = "send" /\ conn = "open" /\ Len(down) < B /\ down' = Append(down, wr.it) /\ wr' = [pc |-> "wait", it |-> <<>>]
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, hs, conn, quit, up, got, reading, reqs, acked, shown>>
WrFail == wr.pc = "send" /\ conn = "closed" /\ wr' = [pc |-> IF "nodrain" \in Bugs THEN "done" ELSE "drain", it |-> <<>>]
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, hs, conn, quit, up, down, got, reading, reqs, acked, shown>>
\* --- the reader
HsEnd == hs.pc = "read" /\ conn = "closed" /\ hs' = [hs EXCEPT !.pc = "done"] /\ quit' = TRUE
         /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, conn, up, down, got, reading, reqs, acked, shown>>
HsRead ==
    /\ hs.pc = "read" /\ up # <<>> /\ up' = Tail(up)
    /\ LET c == Head(up)
       IN CASE c[1] = "req" -> hs' = [hs EXCEPT !.pc = "reply"] /\ UNCHANGED <<disk, tmsg>>
            [] c[1] = "ack" ->
                 LET m == tmsg[c[2]]
                 IN /\ IF m = 0 /\ "strayack" \notin Bugs THEN UNCHANGED hs ELSE hs' = [pc |-> "free", t |-> c[2]]
                    /\ disk' = IF "keep" \in Bugs THEN disk ELSE disk \ {m}
                    /\ tmsg' = [tmsg EXCEPT ![c[2]] = 0]
    /\ UNCHANGED <<prod, ntfn, nt, tags, wch, wr, conn, quit, down, got, reading, reqs, acked, shown>>
HsReply == hs.pc = "reply" /\ Len(wch) < D /\ wch' = Append(wch, <<"reply", 0, 0>>) /\ hs' = [hs EXCEPT !.pc = "read"]
           /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wr, conn, quit, up, down, got, reading, reqs, acked, shown>>
HsFree == hs.pc = "free" /\ Len(tags) < D /\ hs' = [hs EXCEPT !.pc = "read"]
          /\ tags' = (IF "losetag" \in Bugs THEN tags ELSE Append(tags, hs.t))
          /\ UNCHANGED <<disk, prod, ntfn, nt, tmsg, wch, wr, conn, quit, up, down, got, reading, reqs, acked, shown>>
\* --- the client
ClRecv == reading /\ conn = "open" /\ down # <<>> /\ down' = Tail(down)
          /\ (IF Head(down)[1] = "push" THEN got' = got \cup {<<Head(down)[2], Head(down)[3]>>} /\ shown' = Append(shown, Head(down)[3])
              ELSE UNCHANGED <<got, shown>>)
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, up, reading, reqs, acked>>
ClAck == conn = "open" /\ Len(up) < B /\ \E x \in got : got' = got \ {x} /\ up' = Append(up, <<"ack", x[1]>>) /\ acked' = acked \cup {x[2]}
         /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, down, reading, reqs, shown>>
ClReq == conn = "open" /\ Len(up) < B /\ reqs < Reqs /\ reqs' = reqs + 1 /\ up' = Append(up, <<"req", 0>>)
         /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, down, got, reading, acked, shown>>
\* an acknowledgement of nothing the client got
ClEvil == Hostile /\ conn = "open" /\ Len(up) < B /\ reqs < Reqs /\ reqs' = reqs + 1
          /\ \E t \in Tags : (\A x \in got : x[1] # t) /\ up' = Append(up, <<"ack", t>>) /\ acked' = acked \cup {tmsg[t]}
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, down, got, reading, shown>>
ClDeaf == Hostile /\ reading /\ reading' = FALSE
          /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, conn, quit, up, down, got, reqs, acked, shown>>
ClClose == Hostile /\ conn = "open" /\ conn' = "closed"
           /\ UNCHANGED <<disk, prod, ntfn, nt, tags, tmsg, wch, wr, hs, quit, up, down, got, reading, reqs, acked, shown>>

Server == Produce \/ NtQuit \/ NtTake \/ NtTag \/ NtWrite \/ WrQuit \/ WrTake \/ WrSend \/ WrFail \/ HsEnd \/ HsRead \/ HsReply \/ HsFree
Next == Server \/ ClRecv \/ ClAck \/ ClReq \/ ClEvil \/ ClDeaf \/ ClClose
Fair == /\ WF_vars(Produce) /\ WF_vars(NtQuit) /\ WF_vars(NtTake) /\ WF_vars(NtTag) /\ WF_vars(NtWrite) /\ WF_vars(WrQuit) /\ WF_vars(WrTake)
        /\ WF_vars(WrSend) /\ WF_vars(WrFail) /\ WF_vars(HsEnd) /\ WF_vars(HsRead) /\ WF_vars(HsReply) /\ WF_vars(HsFree)
        /\ WF_vars(ClRecv) /\ WF_vars(ClAck)
Spec == Init /\ [][Next]_vars /\ Fair

\* --- properties
Flight == {i \in 1..Len(down) : down[i][1] = "push"}
Outstanding == got \cup {<<down[i][2], down[i][3]>> : i \in Flight}
Window == Hostile \/ Cardinality(Outstanding) <= D
Distinct == Hostile \/ \A x, y \in Outstanding : x[1] = y[1] => x = y
OnlyAcked == Hostile \/ (1..M) \ disk \subseteq acked
InOrder == \A i \in 1..Len(shown) : shown[i] = i
Conserved == Hostile \/ conn = "closed" \/ Len(tags) + Cardinality({t \in Tags : tmsg[t] # 0}) + (IF hs.pc = "free" THEN 1 ELSE 0) = D
NoTagTwice == \A i, j \in 1..Len(tags) : tags[i] = tags[j] => i = j
Drains == <>(disk = {})
Ends == (conn = "closed") ~> (hs.pc = "done" /\ wr.pc = "done")
NotFull == ~(Len(tags) = 0 /\ Len(wch) = D)
NotDeafEnd == ~(~reading /\ hs.pc = "done" /\ reqs = Reqs)
=============================================================================

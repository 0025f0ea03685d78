------------------------------ MODULE KxTrace ------------------------------
(* What contacts a client has to have, given the messages of the exchange     *)
(* that it got (C17).                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Peers, Old
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mode,
          c,      \* no: nobody; half: we began; full: a contact; gone: the user reset the ratchet
          todo,   \* messages that may have been dealt with already, and will be
          offers, \* the user waits for a contact
          up, on
tvars == <<l, mode, c, todo, offers, up, on>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op \in o /\ l' = l + 1
Init == l = 1 /\ mode = "" /\ c = [p \in Peers |-> "no"] /\ todo = <<>> /\ offers = FALSE /\ up = TRUE /\ on = TRUE
\* what a message does
Apply(s, m) == CASE m.e = "begin" /\ s[m.p] \in {"no", "gone"} -> [s EXCEPT ![m.p] = "full"]
                 [] m.e = "answer" /\ s[m.p] = "half" -> [s EXCEPT ![m.p] = "full"]
                 [] OTHER -> s
Stored(x) == IF x = "no" THEN "none" ELSE "true"
Fine(p) == /\ Ev.obs.ids[p] = Stored(c'[p])
           /\ (on' /\ c'[p] = "full" => Ev.obs["in"][p] /\ Ev.obs.out[p])
           /\ (c'[p] # "full" => ~Ev.obs["in"][p] /\ ~Ev.obs.out[p])
Seen == /\ Ev.ok /\ up' = Ev.obs.up /\ on' = Ev.obs.on /\ Ev.obs.odd = 0 /\ Ev.obs.strange = 0
        /\ \A p \in Peers : (\A i \in 1..Len(todo') : todo'[i].p # p) => Fine(p)
        /\ \A p \in Peers : Ev.obs.ids[p] # "other"
All == FoldLeft(Apply, c, todo)
TReset == /\ Is({"reset"}) /\ mode' = Ev.mode /\ c' = [p \in Peers |-> IF p = Old THEN "full" ELSE "no"] /\ todo' = <<>> /\ offers' = FALSE /\ Seen
\* what this message does once the client gets it: nothing, begin or answer
Effect == CASE Ev.kind # "" -> ""
            [] Ev.op = "join" /\ mode = "pin" /\ offers -> "begin"
            [] Ev.op = "hello" /\ mode = "dir" -> "begin"
            [] Ev.op = "answer" -> "answer"
            [] OTHER -> ""
TDeliver == /\ Is({"join", "hello", "answer", "replay"}) /\ UNCHANGED <<mode, offers>>
            /\ LET t == IF Effect = "" THEN todo ELSE Append(todo, [p |-> Ev.p, e |-> Effect])
               IN IF Ev.k = "" /\ on THEN c' = FoldLeft(Apply, c, t) /\ todo' = <<>> ELSE todo' = t /\ UNCHANGED c
            /\ (Ev.k = "" => Ev.obs.on = on /\ Ev.obs.up = up) /\ (Ev.k = "cut" => ~Ev.obs.on /\ Ev.obs.up) /\ (Ev.k \notin {"", "cut"} => ~Ev.obs.up)
            /\ Seen
TOffer == Is({"offer"}) /\ offers' = TRUE /\ UNCHANGED <<mode, c, todo>> /\ Ev.obs.on /\ Seen
TAsk == /\ Is({"fetch", "find"}) /\ UNCHANGED <<mode, offers, todo>>
        /\ c' = IF Ev.kind = "" /\ c[Ev.p] \in (IF Ev.op = "fetch" THEN {"no", "gone"} ELSE {"no"}) THEN [c EXCEPT ![Ev.p] = "half"] ELSE c
        /\ Ev.obs.on /\ Seen
TForget == /\ Is({"wreset"}) /\ UNCHANGED <<mode, offers, todo>> /\ c' = IF c[Ev.p] = "full" THEN [c EXCEPT ![Ev.p] = "gone"] ELSE c
           /\ Ev.obs.on /\ Seen
TLink == /\ Is({"cut", "offline"}) /\ UNCHANGED <<mode, offers, c, todo>> /\ ~Ev.obs.on /\ Ev.obs.up /\ Seen
TKill == /\ Is({"kill"}) /\ UNCHANGED <<mode, offers, c, todo>> /\ ~Ev.obs.up /\ Seen
TBack == /\ Is({"online", "start"}) /\ UNCHANGED <<mode, offers>> /\ c' = All /\ todo' = <<>> /\ Ev.obs.on /\ Seen
TNext == TReset \/ TDeliver \/ TOffer \/ TAsk \/ TForget \/ TLink \/ TKill \/ TBack
TraceSpec == Init /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

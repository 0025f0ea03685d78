------------------------------ MODULE TagStack ------------------------------
(* A pool of tags 0..Depth-1 used by concurrent threads.  Every call is an     *)
(* invocation, one atomic effect, and a return.                                *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Depth, Threads, Blocking
VARIABLES avail,   \* tags that can be handed out
          held,    \* tags handed out and not yet given back
          pend     \* [thread -> its call]
vars == <<avail, held, pend>>
Tags == 0..(Depth - 1)
Idle == [op |-> "idle"]
Init == avail = Tags /\ held = {} /\ pend = [t \in Threads |-> Idle]
InvPop(t) == pend[t].op = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> "pop"]] /\ UNCHANGED <<avail, held>>
\* x is a tag the thread got earlier; or, over-filling, anything when none is held
InvPush(t, x) == /\ pend[t].op = "idle"
                 /\ pend' = [pend EXCEPT ![t] = [op |-> "push", x |-> x]] /\ UNCHANGED <<avail, held>>
EffPop(t) ==
    /\ pend[t].op = "pop"
    /\ \/ \E x \in avail : /\ avail' = avail \ {x} /\ held' = held \cup {x}
                           /\ pend' = [pend EXCEPT ![t] = [op |-> "popped", x |-> x]]
       \/ /\ ~Blocking /\ avail = {} /\ pend' = [pend EXCEPT ![t] = [op |-> "underflow"]] /\ UNCHANGED <<avail, held>>
EffPush(t) ==
    /\ pend[t].op = "push"
    /\ IF Cardinality(avail) = Depth
       THEN /\ ~Blocking /\ pend' = [pend EXCEPT ![t] = [op |-> "overflow"]] /\ UNCHANGED <<avail, held>>
       ELSE /\ avail' = avail \cup {pend[t].x} /\ held' = held \ {pend[t].x}
            /\ pend' = [pend EXCEPT ![t] = [op |-> "pushed"]]
Ret(t) == /\ pend[t].op \in {"popped", "pushed", "underflow", "overflow"}
          /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<avail, held>>
InPush == {pend[t].x : t \in {u \in Threads : pend[u].op = "push"}}
Next == \E t \in Threads :
    \/ InvPop(t) \/ EffPop(t) \/ EffPush(t) \/ Ret(t)
    \/ \E x \in held \ InPush : (\A u \in Threads : pend[u].op = "popped" => pend[u].x /= x) /\ InvPush(t, x)
    \/ ~Blocking /\ held = {} /\ (\A u \in Threads : u = t \/ pend[u].op = "idle") /\ InvPush(t, 0)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(EffPop(t)) /\ WF_vars(EffPush(t)) /\ WF_vars(Ret(t))
\* C15
Conserved == /\ avail \cup held = Tags /\ avail \cap held = {}
\* a waiter does not wait while a tag is available
NoLostWakeup == \A t \in Threads : (pend[t].op = "pop" /\ avail /= {}) ~> (pend[t].op /= "pop" \/ avail = {})
NotUnder == ~\E t \in Threads : pend[t].op = "underflow"
NotOver == ~\E t \in Threads : pend[t].op = "overflow"
NotWaiting == ~\E t \in Threads : pend[t].op = "pop" /\ avail = {}
=============================================================================

-------------------------- MODULE AddressBookTrace --------------------------
(* Sequential and concurrent recordings: the state is the set of books (with   *)
(* the calls still under way) that explain what was recorded so far.           *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Threads
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
tvars == <<S, l>>
Ev == Trace[l]
Idle == [op |-> "idle"]
Of(b, i) == {e \in b : e[1] = i}
By(b, n) == {e \in b : e[2] = n}
\* The call r (invocations are recorded with their eventual results) taking effect on b;
\* {} if it cannot have had that result there.
Effect(b, r) ==
    CASE r.kind = "add" ->
           IF Of(b, r.k) /= {}
           THEN IF <<r.k, r.nick>> \in b /\ (r.clash <=> r.nick /= r.v) THEN {b} ELSE {}
           ELSE IF By(b, r.nick) = {} /\ (r.nick = r.v <=> By(b, r.v) = {}) /\ (r.clash <=> r.nick /= r.v)
                THEN {b \cup {<<r.k, r.nick>>}} ELSE {}
      [] r.kind = "del" -> IF r.ok <=> Of(b, r.k) /= {} THEN {b \ Of(b, r.k)} ELSE {}
      [] r.kind = "find" -> IF IF r.ok THEN <<r.k, r.nick>> \in b ELSE Of(b, r.k) = {} THEN {b} ELSE {}
      [] r.kind = "findnick" -> IF IF r.ok THEN <<r.found, r.v>> \in b /\ r.nick = r.v ELSE By(b, r.v) = {} THEN {b} ELSE {}
      [] r.kind = "all" -> IF ToSet(r.all) = b /\ Len(r.all) = Cardinality(b) THEN {b} ELSE {}
      [] OTHER -> {}
Steps(c) == UNION {IF c.pend[t] = 0 THEN {}
                   ELSE {[book |-> b, pend |-> [c.pend EXCEPT ![t] = 0]] : b \in Effect(c.book, Trace[c.pend[t]])} : t \in Threads}
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET n == (UNION {Steps(c) : c \in new}) \ all IN Close(all \cup n, n)
After ==
    CASE Ev.op = "reset" -> {[book |-> {}, pend |-> [t \in Threads |-> 0]]}
      [] Ev.op = "call" -> UNION {{[c EXCEPT !.book = b] : b \in Effect(c.book, Ev)} : c \in S}
      [] Ev.op = "inv" -> {[c EXCEPT !.pend[Ev.t] = l] : c \in S}
      [] Ev.op = "ret" -> {c \in Close(S, S) : c.pend[Ev.t] = 0}
      [] OTHER -> {}
TInit == S = {} /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ S' = After /\ S' /= {}
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

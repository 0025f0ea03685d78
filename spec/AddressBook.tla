----------------------------- MODULE AddressBook -----------------------------
(* The address book: a one to one map between identities and assigned nicks.   *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Ids, Nicks    \* Nicks: every nick that may be wanted or assigned
VARIABLES book, res     \* book: set of <<identity, nick>>
vars == <<book, res>>
Init == book = {} /\ res = <<"none">>
Of(b, i) == {e \in b : e[1] = i}
By(b, n) == {e \in b : e[2] = n}
\* Results of adding identity i who calls himself n: the assigned nick and the new book
Adds(b, i, n) ==
    IF Of(b, i) /= {} THEN {[nick |-> e[2], book |-> b] : e \in Of(b, i)}
    ELSE IF By(b, n) = {} THEN {[nick |-> n, book |-> b \cup {<<i, n>>}]}
    ELSE {[nick |-> m, book |-> b \cup {<<i, m>>}] : m \in {m \in Nicks : By(b, m) = {}}}
Add(i, n) == \E a \in Adds(book, i, n) : book' = a.book /\ res' = <<"add", a.nick, a.nick = n>>
Del(i) == book' = book \ Of(book, i) /\ res' = <<"del", Of(book, i) /= {}>>
Find(i) == UNCHANGED book /\ res' = <<"find", Of(book, i)>>
FindNick(n) == UNCHANGED book /\ res' = <<"find", By(book, n)>>
Next == \/ \E i \in Ids, n \in Nicks : Add(i, n)
        \/ \E i \in Ids : Del(i) \/ Find(i)
        \/ \E n \in Nicks : FindNick(n)
Spec == Init /\ [][Next]_vars
\* C16
OneToOne == \A e, f \in book : (e[1] = f[1] \/ e[2] = f[2]) => e = f
KeepsNick == [][\A e \in book : \A f \in book' : e[1] = f[1] => e = f]_vars
NotClash == ~(res[1] = "add" /\ ~res[3])
=============================================================================

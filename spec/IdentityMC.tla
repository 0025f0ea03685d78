----------------------------- MODULE IdentityMC -----------------------------
(* Everything someone who only holds the keys of "M" can put together.         *)
EXTENDS Identity
VARIABLE p
A == NewId("A", "ab", "c")
B == NewId("B", "ab", "d")
Names == {"a", "ab", "bc"}
Own == <<"sk", "M">>
Sks == {A.sk, B.sk, Own}
Keys == {A.key, B.key, <<"key", "M">>}
Init == p \in {A, B}
Next == \/ \E n \in Names : p' = [p EXCEPT !.name = n] \/ p' = [p EXCEPT !.nick = n]
        \/ \E s \in Sks : p' = [p EXCEPT !.sk = s]
        \/ \E k \in Keys : p' = [p EXCEPT !.key = k] \/ p' = [p EXCEPT !.id = Hash(k)]
        \/ \E q \in {A, B} : p' = [p EXCEPT !.digest = q.digest] \/ p' = [p EXCEPT !.sig = q.sig]
        \/ p' = [p EXCEPT !.digest = Digest(p)]
        \/ p' = [p EXCEPT !.sig = Sig(Own, p.digest)]
Spec == Init /\ [][Next]_p
\* the digest may get stale: bound the space by what it can be
Bounded == p.digest \in {A.digest, B.digest, Digest(p)}
\* C13
TamperEvident == Valid(p) /\ p.sk /= Own => p \in {A, B}
HandleOfKey == Valid(p) => p.id = Hash(p.key)
NotOther == ~(Valid(p) /\ p.sk = Own /\ p.key = A.key)
=============================================================================

-------------------------------- MODULE Blob --------------------------------
(* Password protected blobs over symbolic terms.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Passwords
Key(salt, pw) == <<"key", salt, pw>>
Pack(i, pw) == [salt |-> <<"salt", i>>, nonce |-> <<"nonce", i>>, key |-> Key(<<"salt", i>>, pw),
                sealedWith |-> <<"nonce", i>>, data |-> i, whole |-> TRUE]
Opens(b, pw) == b.whole /\ b.key = Key(b.salt, pw) /\ b.sealedWith = b.nonce
VARIABLE b
Init == \E i \in 1..2, pw \in Passwords : b = Pack(i, pw)
\* salt, nonce and body can be exchanged or damaged separately
Next == \E q \in {Pack(i, pw) : i \in 1..2, pw \in Passwords} :
            \/ b' = [b EXCEPT !.salt = q.salt] \/ b' = [b EXCEPT !.nonce = q.nonce]
            \/ b' = [b EXCEPT !.salt = <<"x">>] \/ b' = [b EXCEPT !.nonce = <<"x">>] \/ b' = [b EXCEPT !.whole = FALSE]
Spec == Init /\ [][Next]_b
\* C14
OnlyOriginal == \A pw \in Passwords : Opens(b, pw) => b = Pack(b.data, pw)
NotOpen == ~\E pw \in Passwords : Opens(b, pw)
=============================================================================

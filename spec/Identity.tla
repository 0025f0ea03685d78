------------------------------ MODULE Identity ------------------------------
(* Public identities over symbolic terms: hash and signature are ideal.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Framed   \* the digest tells where the name ends and the nick begins
Hash(key) == <<"hash", key>>
Sig(sk, m) == <<"sig", sk, m>>
Digest(p) == IF Framed THEN <<"digest", <<p.name, p.nick>>, p.sk, p.key, p.id>>
             ELSE <<"digest", <<p.name \o p.nick>>, p.sk, p.key, p.id>>
Signed(p) == [p EXCEPT !.digest = Digest(p), !.sig = Sig(p.sk, Digest(p))]
NewId(who, name, nick) ==
    Signed([name |-> name, nick |-> nick, sk |-> <<"sk", who>>, key |-> <<"key", who>>, id |-> Hash(<<"key", who>>),
            digest |-> <<>>, sig |-> <<>>])
Valid(p) == /\ p.id = Hash(p.key) /\ p.digest = Digest(p) /\ p.sig = Sig(p.sk, p.digest)
=============================================================================

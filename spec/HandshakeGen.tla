---------------------------- MODULE HandshakeGen ----------------------------
(* Behaviours of two clients and two servers on a wire owned by the attacker:  *)
(* mostly relayed faithfully, now and then altered or crossed between runs.    *)
EXTENDS Handshake, TLC, Json, Integers, SequencesExt
CONSTANTS Luck    \* the larger the rarer an attack
VARIABLES eps, partner, hist, phase
gvars == <<eps, partner, hist, phase>>
Cl == {"c1", "c2"}
Sv == {"s1", "s2"}
Mut == [t |-> "enc", k |-> None, n |-> 0, body |-> Junk]
GInit ==
    \E a, b \in {"S1", "S2"}, s2 \in {"S1", "S2"}, x \in {TRUE, FALSE} :
      /\ eps = [e \in Cl \cup Sv |->
            CASE e = "c1" -> Start(NewEp(e, "init", Lt("C1"), Lt(a), {Lt("C1")}, Eph(e), 0))
              [] e = "c2" -> Start(NewEp(e, "init", Lt("C2"), Lt(b), {Lt("C2")}, Eph(e), 0))
              [] e = "s1" -> NewEp(e, "resp", Lt("S1"), None, {Lt("S1")}, Eph(e), 0)
              [] e = "s2" -> NewEp(e, "resp", Lt(s2), None, {Lt(s2)}, Eph(e), 0)]
      /\ partner = IF x THEN [c1 |-> "s1", s1 |-> "c1", c2 |-> "s2", s2 |-> "c2"]
                   ELSE [c1 |-> "s2", s2 |-> "c1", c2 |-> "s1", s1 |-> "c2"]
      /\ hist = <<[op |-> "ep", p |-> "c1", k |-> "C1", v |-> a], [op |-> "ep", p |-> "c2", k |-> "C2", v |-> b],
                  [op |-> "ep", p |-> "s1", k |-> "S1", v |-> ""], [op |-> "ep", p |-> "s2", k |-> s2, v |-> ""]>>
      /\ phase = "run"
Live(e) == eps[e].stage \notin {"done", "failed"}
Accepted(s) == IF s.role = "init" THEN s.rn ELSE IF s.stage = "c1" THEN 0 ELSE s.rn + 1
Natural(e) == Live(e) /\ Len(eps[partner[e]].out) > Accepted(eps[e])
Dlv(e, src, i, mut) ==
    LET f == eps[src].out[i]
        g == IF mut THEN (IF f.t = "raw" THEN Raw(Junk) ELSE Mut) ELSE f
    IN /\ eps' = [eps EXCEPT ![e] = Recv(@, g)]
       /\ hist' = Append(hist, [op |-> "dlv", p |-> e, q |-> src, i |-> i, b |-> mut])
       /\ UNCHANGED <<partner, phase>>
Nat1 == \E e \in DOMAIN eps : Natural(e) /\ Dlv(e, partner[e], Accepted(eps[e]) + 1, FALSE)
Evil == \E e \in DOMAIN eps : Live(e) /\
           \/ Natural(e) /\ Dlv(e, partner[e], Accepted(eps[e]) + 1, TRUE)
           \/ \E src \in DOMAIN eps : \E i \in 1..Len(eps[src].out) : Dlv(e, src, i, FALSE)
Quiet == ~\E e \in DOMAIN eps : Natural(e)
Step == phase = "run" /\ (IF RandomElement(1..Luck) = 1 THEN Evil ELSE Nat1)
Ready == phase = "run" /\ (Quiet \/ Len(hist) > 40) /\ phase' = "use" /\ UNCHANGED <<eps, partner>>
        /\ hist' = hist \o SetToSeq({[op |-> "done", p |-> e] : e \in {d \in DOMAIN eps : eps[d].stage = "done"}})
DoneEps == {d \in DOMAIN eps : eps[d].stage = "done"}
Used(e) == \E i \in 1..Len(hist) : hist[i].op = "use" /\ hist[i].q = e
Use == phase = "use" /\ \E to \in DoneEps : ~Used(to) /\ \E from \in DoneEps : eps[from].role /= eps[to].role
        /\ (RandomElement(1..4) > 1 => Keys(eps[from]) = Keys(eps[to]))
        /\ hist' = Append(hist, [op |-> "use", p |-> from, q |-> to]) /\ UNCHANGED <<eps, partner, phase>>
Finish == phase = "use" /\ phase' = "end" /\ UNCHANGED <<eps, partner>>
          /\ (\A to \in DoneEps : (\E d \in DoneEps : eps[d].role /= eps[to].role) => Used(to))
          /\ hist' = Append(hist, [op |-> "end"]) /\ PrintT("TRACE " \o ToJson(hist'))
GSpec == GInit /\ [][Step \/ Ready \/ Use \/ Finish]_gvars
=============================================================================

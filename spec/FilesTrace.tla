----------------------------- MODULE FilesTrace -----------------------------
(* What files a client has to have, given what its contacts sent (C19).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Peers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          st,     \* transfers under way: [have, total, odd, good, sure]
          may,    \* content -> how often it can be in the download area at most
          must,   \* content -> how often it has to be there once everything has been dealt with
          area, up, on, given, gave, kills, ann
tvars == <<l, st, may, must, area, up, on, given, gave, kills, ann>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op \in o /\ l' = l + 1
Get(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Inc(f, c) == (c :> Get(f, c) + 1) @@ f
\* one message of a transfer
Part(s, q) ==
    IF q.new THEN
        LET a == IF q.good THEN [s EXCEPT !.may = Inc(@, q.c)] ELSE s
        IN IF q.good /\ q.i = 0
             THEN a \* the client does not send empty files
             ELSE [a EXCEPT !.st = (q.key :> [have |-> 0, total |-> q.i, odd |-> FALSE, good |-> q.good, sure |-> q.sure]) @@ @]
    ELSE IF q.key \notin DOMAIN s.st THEN s
    ELSE LET t == s.st[q.key] IN
        IF q.good /\ q.i = t.have + 1
          THEN IF q.i = t.total
                 THEN [s EXCEPT !.st = [k \in DOMAIN @ \ {q.key} |-> @[k]],
                                !.must = IF t.good /\ t.sure /\ ~t.odd THEN Inc(@, q.c) ELSE @]
                 ELSE [s EXCEPT !.st[q.key].have = q.i]
          ELSE [s EXCEPT !.st[q.key].odd = TRUE]
Copies(a, c) == Cardinality({n \in a : n.c = c})
Bounds(a) == \A n \in a : Copies(a, n.c) <= Get(may', n.c)
There(a) == \A c \in DOMAIN must' : Copies(a, c) >= must'[c]
Init == l = 1 /\ st = <<>> /\ may = <<>> /\ must = <<>> /\ area = {} /\ up = TRUE /\ on = TRUE /\ given = [p \in Peers |-> {}] /\ gave = [p \in Peers |-> <<>>] /\ kills = 0 /\ ann = 0
\* a file is in the area for good; what the user is told of is there, and unless the client died, the other way round
Seen == /\ Ev.ok /\ Ev.obs.bad = 0 /\ Ev.obs.outside = <<>> /\ up' = Ev.obs.up /\ on' = Ev.obs.on
        /\ area' = ToSet(Ev.obs.area) /\ Cardinality({n.n : n \in area'}) = Cardinality(area')
        /\ Bounds(area')
        /\ ann' = Ev.obs.ann /\ ann' <= Cardinality(area') - 1 /\ ann' + kills' >= Cardinality(area') - 1 /\ ann' >= ann
        /\ gave' = [p \in Peers |-> Ev.obs.gave[p]]
        /\ \A p \in Peers : /\ IsPrefix(gave[p], gave'[p])
                            /\ Cardinality(ToSet(gave'[p])) = Len(gave'[p])
Kept == area \subseteq area'
Settled == on' => /\ There(area')
                  /\ \A p \in Peers : given'[p] \subseteq ToSet(gave'[p])
TReset == /\ Is({"reset"}) /\ st' = <<>> /\ may' = [c \in {"k"} |-> 1] /\ must' = [c \in {"k"} |-> 1] /\ kills' = 0
          /\ given' = [p \in Peers |-> {}] /\ Ev.obs.up /\ Ev.obs.on
          /\ Ev.obs.bad = 0 /\ Ev.obs.outside = <<>> /\ up' = Ev.obs.up /\ on' = Ev.obs.on
          /\ area' = ToSet(Ev.obs.area) /\ area' = {[n |-> "\"mine.txt\"", c |-> "k"]} /\ ann' = 0 /\ Ev.obs.ann = 0 /\ gave' = [p \in Peers |-> <<>>]
After(s) == st' = s.st /\ may' = s.may /\ must' = s.must
Now == [st |-> st, may |-> may, must |-> must]
\* files arrive; the client may die of it (k), and be told of an empty one again
TFiles == /\ Is({"files"})
          /\ LET s == FoldLeft(Part, Now, Ev.parts)
                 killed == Ev.k \notin {"", "cut"}
             IN IF killed THEN /\ kills' = kills + 1 /\ After([s EXCEPT !.may = Inc(@, "e")]) /\ ~Ev.obs.up
                               /\ given' = [p \in Peers |-> {}]
                          ELSE UNCHANGED kills /\ After(s) /\ UNCHANGED given /\ Ev.obs.up
          /\ (Ev.k = "cut" => ~Ev.obs.on) /\ (Ev.k = "" => Ev.obs.on = on)
          /\ Seen /\ Kept /\ Settled
TGive == /\ Is({"give"}) /\ After(Now) /\ UNCHANGED kills /\ given' = [given EXCEPT ![Ev.p] = @ \cup ToSet(Ev.given)]
         /\ Ev.obs.on = on /\ Ev.obs.up /\ Seen /\ Kept /\ Settled
TOther == /\ Is({"type", "tell", "cut", "offline", "online", "auto", "start"}) /\ After(Now) /\ UNCHANGED <<given, kills>>
          /\ (Ev.op \in {"cut", "offline"} => ~Ev.obs.on) /\ (Ev.op \in {"online", "auto", "start"} => Ev.obs.on) /\ Ev.obs.up
          /\ Seen /\ Kept /\ Settled
TKill == /\ Is({"kill", "crash", "rkill"}) /\ kills' = kills + 1 /\ After([Now EXCEPT !.may = Inc(@, "e")])
         /\ given' = [p \in Peers |-> {}] /\ ~Ev.obs.up /\ Seen /\ Kept
TNext == TReset \/ TFiles \/ TGive \/ TOther \/ TKill
TraceSpec == Init /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

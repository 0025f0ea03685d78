------------------------------ MODULE ServerGen ------------------------------
(* Behaviours for the server driver: operations chosen at random by profile,  *)
(* each with its effect on a server that answers as it should, so that later  *)
(* operations meet accounts, sessions, queues, tokens and blobs.              *)
EXTENDS Server, Json
CONSTANTS Prof, Len0
VARIABLES g, hist, room, cnt, done
gvars == <<g, hist, room, cnt, done>>
R(S) == RandomElement(S)
Pick(q) == q[RandomElement(1..Len(q))]
Rep(n, x) == [i \in 1..n |-> x]

\* --- what each profile does, by weight
Kinds ==
    CASE Prof = "queue" -> Rep(14, "send") \o Rep(2, "burst") \o Rep(5, "login") \o Rep(3, "logout") \o Rep(5, "ack") \o Rep(3, "fence")
              \o Rep(2, "recv") \o Rep(2, "crash") \o Rep(1, "restart") \o Rep(1, "disable") \o Rep(2, "enable") \o Rep(2, "par") \o Rep(1, "wait") \o Rep(1, "big") \o Rep(1, "empty") \o Rep(2, "swarm")
      [] Prof = "window" -> Rep(4, "send") \o Rep(5, "flow") \o Rep(6, "ack") \o Rep(4, "acks") \o Rep(4, "badack") \o Rep(2, "fence") \o Rep(3, "recv")
              \o Rep(2, "login") \o Rep(1, "logout") \o Rep(1, "crash") \o Rep(1, "par")
      [] Prof = "admission" -> Rep(5, "login") \o Rep(2, "logout") \o Rep(3, "disable") \o Rep(4, "enable") \o Rep(3, "send") \o Rep(1, "fence")
              \o Rep(5, "par") \o Rep(1, "restart") \o Rep(1, "crash") \o Rep(2, "create") \o Rep(2, "badadmin") \o Rep(1, "ping") \o Rep(1, "ack") \o Rep(2, "duel")
      [] Prof = "create" -> Rep(6, "create") \o Rep(3, "token") \o Rep(1, "expired") \o Rep(4, "par") \o Rep(2, "disable") \o Rep(1, "enable") \o Rep(2, "restart")
              \o Rep(1, "crash") \o Rep(2, "login") \o Rep(2, "send") \o Rep(1, "downpending") \o Rep(1, "fence")
      [] Prof = "rendezvous" -> Rep(6, "upload") \o Rep(6, "pull") \o Rep(4, "par") \o Rep(1, "restart") \o Rep(1, "crash") \o Rep(2, "login") \o Rep(1, "downrv") \o Rep(1, "logout") \o Rep(1, "badpull")
      [] Prof = "crowded" -> Rep(6, "upload") \o Rep(3, "pull") \o Rep(1, "restart") \o Rep(2, "login")
      [] Prof = "directory" -> Rep(3, "create") \o Rep(5, "login") \o Rep(9, "find") \o Rep(2, "restart") \o Rep(1, "crash") \o Rep(2, "disable") \o Rep(2, "enable")
              \o Rep(2, "par") \o Rep(1, "logout") \o Rep(1, "badfind")
      [] Prof = "hostile" -> Rep(10, "hostile") \o Rep(6, "outsider") \o Rep(3, "socket") \o Rep(2, "badadmin") \o Rep(6, "login") \o Rep(6, "send") \o Rep(4, "fence") \o Rep(2, "find")
              \o Rep(1, "upload") \o Rep(1, "badack") \o Rep(2, "par") \o Rep(1, "disable") \o Rep(2, "enable") \o Rep(1, "ack")
      [] Prof = "fault" -> Rep(5, "send") \o Rep(3, "ack") \o Rep(3, "login") \o Rep(1, "logout") \o Rep(1, "fence") \o Rep(9, "inject") \o Rep(1, "token")
              \o Rep(1, "enable") \o Rep(1, "pull")
ParKinds ==
    CASE Prof = "queue" -> Rep(6, "send") \o Rep(2, "burst") \o Rep(2, "login") \o Rep(2, "logout") \o Rep(3, "ack") \o Rep(1, "disable") \o Rep(1, "enable")
      [] Prof = "window" -> Rep(3, "send") \o Rep(3, "acks") \o Rep(2, "flow")
      [] Prof = "admission" -> Rep(4, "login") \o Rep(3, "relogin") \o Rep(2, "logout") \o Rep(3, "disable") \o Rep(3, "enable") \o Rep(3, "send")
      [] Prof = "create" -> Rep(9, "create") \o Rep(1, "disable") \o Rep(1, "login")
      [] Prof = "rendezvous" -> Rep(5, "upload") \o Rep(3, "pull")
      [] Prof = "directory" -> Rep(3, "create") \o Rep(4, "find") \o Rep(2, "login") \o Rep(1, "disable")
      [] Prof = "hostile" -> Rep(3, "hostile") \o Rep(2, "outsider") \o Rep(4, "send") \o Rep(2, "login") \o Rep(1, "disable")
      [] OTHER -> <<"send">>
InjKinds == <<"send", "send", "send", "ack", "create", "create", "upload", "disable", "enable", "login", "logout">>
Injects == {c \o ":" \o e \o ":when=" \o ToString(w) :
              c \in {"openat", "renameat", "write", "mkdirat", "unlinkat", "close", "newfstatat", "fsync"}, e \in {"signal=KILL"}, w \in {1, 2, 3, 5}}
           \cup {c \o ":error=" \o e : c \in {"renameat", "mkdirat", "fsync"}, e \in {"EIO", "ENOSPC", "EACCES"}}
           \cup {"openat:error=" \o e : e \in {"EIO", "EMFILE", "EACCES"}}

\* what the server does takes longer than usual
Slow == {c \o ":delay_enter=" \o ToString(t) : c \in {"renameat", "newfstatat", "unlinkat", "openat,mkdirat", "renameat,unlinkat", "write"},
                                              t \in IF Prof \in {"queue", "window", "hostile"} THEN {1000, 3000} ELSE {3000, 30000, 80000}} \ {"write:delay_enter=80000"}
Nicks == {"n1", "n2", "n3"}
Out == {"tcpclose", "tcpgarbage", "tcphang", "close", "hang", "garbage", "modehuge", "modelong", "modeempty", "modeother", "identifyloop",
        "identifynoread", "createjunk", "createhuge", "createtrunc", "createzero", "sessionclose", "sessionhang", "sessiongarbage", "sessionhuge",
        "sessionempty", "sessionsizes", "sessiontwice"}
Sock == {"garbage", "close", "hang", "version", "command", "type", "null", "array", "short", "shortenable", "nothex", "long"}
Host == {"tag", "tag", "acktag", "cmdtag", "unknown", "empty", "cmdonly", "cmdjunk", "cmdhuge", "hdrhuge", "frame", "framehuge", "framezero",
         "half", "overmax", "tlsgarbage"}
Flood == {"flood", "floodping", "floodhold", "flooddisable"}
Online == {u \in Users : g.sess[u] # 0}
Registered == {u \in Users : g.st[u] # "none"}
Or(S, T) == IF S = {} THEN T ELSE S
\* operations that overlap mostly concern the same user
Hot == {h \in Users : \E i \in 1..Len(hist) : hist[i].op = "par" /\ hist[i].p = h /\ room = i + hist[i].n - Len(hist)}
Mostly(S, T) == IF RandomElement(1..8) = 1 THEN T ELSE IF room > 0 /\ RandomElement(1..2) = 1 THEN Or(Hot, T) ELSE Or(S, T)

\* --- the effect, were it alone
Rs == <<"ok", "refused", "disabled", "unwelcome", "unknown", "error", "none">>
After(s, o) ==
    LET can == {i \in 1..Len(Rs) : Eff(s, [o EXCEPT !.res = Rs[i]]) # {}}
    IN IF can = {} THEN s
       ELSE LET i == CHOOSE i \in can : \A j \in can : i <= j
            IN CHOOSE t \in Eff(s, [o EXCEPT !.res = Rs[i]]) : TRUE
Call(kind, u, v, k, x, sid, m) == After(g, [kind |-> kind, u |-> u, v |-> v, k |-> k, x |-> x, sid |-> sid, m |-> m, b |-> FALSE, f |-> FALSE, res |-> "ok"])

\* --- operations
Crowded == Prof = "crowded"
Issued == {hist[i].k : i \in {j \in 1..Len(hist) : hist[j].op = "token"}}
Do(r, t) == hist' = Append(hist, r) /\ g' = t /\ cnt' = cnt + 1
Same(r) == Do(r, g)
Op(k) ==
    \E p \in {R(Mostly(Online, Users))}, q \in {R(Mostly(Registered, Users))}, a \in {R(1..1000)}, b \in {R(1..1000)} :
    CASE k = "send" -> Do([op |-> "send", p |-> p, q |-> q, k |-> IF a % 4 = 0 THEN "proxy" ELSE "cache", n |-> IF b % 5 = 0 THEN a % 6 ELSE 0, i |-> 0],
                          Call("send", p, q, "cache", "", 0, cnt))
      [] k = "burst" -> Do([op |-> "burst", p |-> p, q |-> q, k |-> "cache", i |-> 2 + (a % 5)], Call("send", p, q, "cache", "", 0, cnt))
      [] k = "flow" -> Do([op |-> "send", p |-> p, q |-> q, k |-> IF a % 3 = 0 THEN "proxy" ELSE "cache", n |-> 0, i |-> 10 + (b % 30)], Call("send", p, q, "cache", "", 0, cnt))
      [] k = "big" -> Do([op |-> "send", p |-> p, q |-> q, k |-> IF a % 4 = 0 THEN "proxy" ELSE "cache", n |-> IF a % 2 = 0 THEN 100 + (b % 80) ELSE 5], Call("send", p, q, "cache", "", 0, cnt))
      [] k = "empty" -> IF \E i \in 1..Len(hist) : hist[i].op = "send" /\ hist[i].n < 0 THEN Same([op |-> "ping", p |-> p])
                        ELSE Do([op |-> "send", p |-> p, q |-> q, k |-> "cache", n |-> 0 - 1], Call("send", p, q, "cache", "", 0, cnt))
      [] k = "login" -> \E w \in {R(Mostly(Registered, Users))} : Do([op |-> "login", p |-> w, k |-> IF a % 3 = 0 THEN "" ELSE "keep"], Call("login", w, "", "", "", cnt, 0))
      [] k = "relogin" -> \E w \in {R(Mostly(Online, Users))} : Do([op |-> "login", p |-> w, t |-> "own" \o ToString(cnt)], Call("login", w, "", "", "", cnt, 0))
      [] k = "logout" -> Do([op |-> "logout", p |-> p, k |-> IF a % 2 = 0 THEN "abrupt" ELSE ""], [g EXCEPT !.sess[p] = 0])
      [] k = "ack" -> Do([op |-> "ack", p |-> p, n |-> a % 32, i |-> b % 3, b |-> a % 2 = 0], g)
      [] k = "acks" -> Do([op |-> "ack", p |-> p, n |-> a % 32, i |-> 8 + (b % 24), b |-> a % 2 = 0], g)
      [] k = "badack" -> Do([op |-> "badack", p |-> p, n |-> a % 32, i |-> b % 3], g)
      [] k = "fence" -> Do([op |-> "fence", p |-> p, n |-> a % 3], g)
      [] k = "recv" -> Same([op |-> "recv", p |-> p, n |-> 150, i |-> 1 + (a % 34)])
      [] k = "ping" -> Same([op |-> "ping", p |-> p])
      [] k = "wait" -> Same([op |-> "wait", n |-> IF a % 3 = 0 THEN 1050 ELSE 30])
      [] k = "crash" -> Do([op |-> "crash"], Call("crash", "", "", g.pol, "", 0, 0))
      [] k = "restart" -> IF Prof \in {"create", "directory"}
                          THEN \E pol \in {IF Prof = "create" THEN R({"yes", "no", "token"}) ELSE "yes"} : \E d \in {R(BOOLEAN)} :
                               Do([op |-> "restart", k |-> pol, b |-> d], [g EXCEPT !.sess = [u \in Users |-> 0], !.pol = pol, !.dir = d])
                          ELSE Do([op |-> "restart"], [g EXCEPT !.sess = [u \in Users |-> 0]])
      [] k = "create" -> \E w \in {R(Users)} : \E n \in {IF a % 5 = 0 THEN R(Nicks) ELSE "m" \o w} : \E t \in {IF a % 7 = 0 THEN R({"", "bogus", "word", "crlf", "eq", "gone"}) ELSE IF a % 7 = 1 THEN R(Or(Issued, {"bogus"})) ELSE R(Or(g.toks, {"bogus"}))} :
                         \E v \in {IF b % 10 = 0 THEN R({"badsig", "badhandle", "badnick"}) ELSE ""} :
                         Do([op |-> "create", p |-> w, q |-> n, k |-> t, v |-> v], IF v = "" THEN Call("create", w, t, n, "", 0, 0) ELSE g)
      [] k = "token" -> Do([op |-> "token", k |-> "t" \o ToString(cnt)], [g EXCEPT !.toks = @ \cup {"t" \o ToString(cnt)}])
      [] k = "expired" -> Do([op |-> "token", k |-> "t" \o ToString(cnt), b |-> TRUE], g)
      [] k = "disable" -> \E w \in {R(Mostly(Registered, Users))} : Do([op |-> "disable", p |-> w, v |-> IF a % 4 = 0 THEN "upper" ELSE ""], Call("disable", w, "", "", "", 0, 0))
      [] k = "enable" -> \E w \in {R(Or({u \in Users : g.st[u] = "off"}, Users))} : Do([op |-> "enable", p |-> w, v |-> IF a % 4 = 0 THEN "upper" ELSE ""], Call("enable", w, "", "", "", 0, 0))
      [] k = "badadmin" -> Same([op |-> R({"disable", "enable"}), p |-> p, v |-> R({"short", "odd", "long", "empty", "path"})])
      [] k = "find" -> \E n \in {IF a % 6 = 0 THEN R(Nicks \cup {"m" \o u : u \in Users}) ELSE R(Or({g.nick[u] : u \in Registered}, Nicks))} : Same([op |-> "find", p |-> p, k |-> n, v |-> IF b % 3 = 0 THEN R({"upper", "title", "space", "lead", "nul", "shorter", "longer", "twice"}) ELSE ""])
      [] k = "badfind" -> Same([op |-> "find", p |-> p, k |-> R({"", " ", "n1 ", "N1", "n1\n", "../n1", "n", "[n1]", "name of u1", "*", "mu1\t", "mu", "mu11"})])
      [] k = "upload" -> \E w \in {"blob" \o ToString(cnt)} :
                         Do([op |-> "upload", p |-> p, k |-> w, n |-> IF a % 8 = 0 THEN R({0, 1, 2, 4096, 4097, 10000}) ELSE R({20, 300, 4000}),
                             v |-> IF b % 8 = 0 THEN R({"", "0", "-1", "168", "169", "x", "1 ", "99999999999999999999"}) ELSE "24"], [g EXCEPT !.blobs = (w :> w) @@ @])
      [] k = "pull" -> Same([op |-> "pull", p |-> p, k |-> IF Crowded /\ a % 2 = 0 THEN "crowd" ELSE IF DOMAIN g.blobs = {} THEN "00000000" ELSE R(DOMAIN g.blobs)])
      [] k = "badpull" -> Same([op |-> "pull", p |-> p, k |-> R({"", "0", "00000000", "12345678", "../x", "x", "[", "=", "00000000\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"})])
      [] k = "hostile" -> \E h \in {IF a % 8 = 0 THEN R(Flood) ELSE R(Host)} :
                          Do([op |-> "hostile", p |-> p, k |-> h, n |-> b], IF h \in {"tag", "frame", "framehuge", "hdrhuge", "half", "overmax", "tlsgarbage"} \cup Flood THEN [g EXCEPT !.sess[p] = 0] ELSE g)
      [] k = "outsider" -> Same([op |-> "outsider", k |-> R(Out)])
      [] k = "socket" -> Same([op |-> "socket", p |-> p, k |-> R(Sock)])

Step ==
    /\ Len(hist) < Len0
    /\ \E k \in {IF room > 0 THEN Pick(ParKinds) ELSE IF room = 0 THEN "join" ELSE IF room = 0 - 2 THEN "ping" ELSE Pick(Kinds)} :
       CASE k = "par" -> /\ \E n \in {R(2..6)}, h \in {R(Or(Online, Users))} : Same([op |-> "par", k |-> IF R(1..2) = 1 THEN R(Slow) ELSE "", p |-> h, n |-> n]) /\ room' = n
                            /\ UNCHANGED done
         [] k = "join" -> Same([op |-> "join"]) /\ room' = 0 - 1 /\ UNCHANGED done
         [] k = "duel" -> \* somebody comes back while being thrown out
              /\ \E h \in {R(Or(Online, Registered))}, t \in {R({60000, 150000})}, x \in {R(0..2)} :
                   hist' = hist \o <<[op |-> "login", p |-> h, k |-> "keep"],
                                    [op |-> "par", k |-> R({"renameat", "renameat", "mkdirat", "unlinkat", "openat"}) \o ":delay_enter=" \o ToString(t), p |-> h, n |-> 2],
                                    [op |-> "disable", p |-> h, v |-> ""], [op |-> "login", p |-> h, t |-> "own" \o ToString(cnt)],
                                    [op |-> "join"], [op |-> "ping", p |-> h]>>
                                  \o (IF x = 0 THEN <<>> ELSE <<[op |-> "enable", p |-> h, v |-> ""]>>)
                   /\ g' = [g EXCEPT !.st[h] = IF x = 0 THEN "off" ELSE "on", !.sess[h] = 0]
              /\ cnt' = cnt + 1 /\ UNCHANGED <<room, done>>
         [] k = "swarm" -> \* messages arrive while others are being handed over
              /\ \E h \in {R(Or(Online, Registered))}, t \in {R({2000, 8000, 20000})}, u \in {R(Users)} :
                 \E b \in {[op |-> "burst", p |-> R(Or(Online \ {h}, Users)), q |-> h, k |-> "cache", i |-> R(1..4)]} :
                   hist' = hist \o <<[op |-> "login", p |-> h, k |-> "keep"],
                                    [op |-> "par", k |-> R({"openat", "getdents64", "newfstatat", "openat,getdents64", "renameat"}) \o ":delay_enter=" \o ToString(t), p |-> h, n |-> 3], b,
                                    [op |-> "burst", p |-> R(Or(Online \ {h, b.p}, Users)), q |-> h, k |-> "cache", i |-> R(1..4)],
                                    [op |-> "burst", p |-> h, q |-> h, k |-> "cache", i |-> R(1..4)],
                                    [op |-> "join"], [op |-> "recv", p |-> h, n |-> 150, i |-> 20], [op |-> "fence", p |-> h, n |-> 0]>>
              /\ cnt' = cnt + 1 /\ UNCHANGED <<room, done, g>>
         [] k = "inject" -> Same([op |-> "inject", k |-> R(Injects)]) /\ room' = 0 - 2 /\ UNCHANGED done
         [] k = "downpending" -> Same([op |-> "dbdown", k |-> "pending"]) /\ room' = 0 - 2 /\ UNCHANGED done
         [] k = "downrv" -> Same([op |-> "dbdown", k |-> "rendezvous"]) /\ room' = 0 - 2 /\ UNCHANGED done
         [] OTHER -> /\ \E kk \in {IF room = 0 - 2 THEN Pick(CASE Prof = "create" -> <<"create">> [] Prof = "rendezvous" -> <<"upload", "upload", "pull">> [] OTHER -> InjKinds) ELSE k} : Op(kk)
                     /\ room' = IF room > 0 THEN room - 1 ELSE 0 - 1
                     /\ UNCHANGED done

\* --- accounts and sessions to begin with
Seed ==
    LET us == CASE Prof = "create" -> <<>> [] Prof = "directory" -> <<"u1">> [] OTHER -> <<"u1", "u2", "u3">>
        cr == [i \in 1..Len(us) |-> [op |-> "create", p |-> us[i], q |-> "m" \o us[i], k |-> "", v |-> ""]]
        lg == [i \in 1..Len(us) |-> [op |-> "login", p |-> us[i], k |-> ""]]
        cw == IF Crowded THEN <<[op |-> "crowd", n |-> R({1, 20})]>> ELSE <<>>
    IN [us |-> us, ops |-> cr \o cw \o lg]
GInit ==
    \E pol \in {IF Prof \in {"create", "admission"} THEN R({"yes", "token", "token"}) ELSE "yes"}, d \in {R(BOOLEAN)} :
    LET p0 == IF Seed.us = <<>> THEN pol ELSE "yes"
        on == {Seed.us[i] : i \in 1..Len(Seed.us)}
        e == Empty(p0, d \/ Prof = "directory")
    IN /\ g = [e EXCEPT !.st = [u \in Users |-> IF u \in on THEN "on" ELSE "none"], !.nick = [u \in Users |-> IF u \in on THEN "m" \o u ELSE ""],
                        !.sess = [u \in Users |-> IF u \in on THEN 1 ELSE 0], !.listed = [u \in Users |-> u \in on /\ e.dir]]
       /\ hist = <<[op |-> "start", k |-> p0, b |-> e.dir]>> \o Seed.ops
       /\ room = 0 - 1 /\ cnt = 1 /\ done = FALSE
\* in the end everybody who can drains the queue
Close ==
    LET us == <<"u1", "u2", "u3">>
    IN (IF room # 0 - 1 THEN <<[op |-> "join"]>> ELSE <<>>) \o [i \in 1..3 |-> [op |-> "enable", p |-> us[i], v |-> ""]]
       \o [i \in 1..6 |-> IF i % 2 = 1 THEN [op |-> "login", p |-> us[(i + 1) \div 2], k |-> "keep"] ELSE [op |-> "fence", p |-> us[i \div 2], n |-> 0]]
Finish == Len(hist) >= Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<g, hist, room, cnt>> /\ PrintT("TRACE " \o ToJson(hist \o Close))
GSpec == GInit /\ [][Step \/ Finish]_gvars
=============================================================================

------------------------------- MODULE Export -------------------------------
(* Server and client records on their way from zkexport to zkimport.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Servers, Clients, Addrs
VARIABLES sconf,   \* server -> its configured address ("" for none) and directory setting
          blobs,   \* what has been exported
          conf,    \* client -> the server it is configured for
          accts,   \* server -> clients that have an account
          last     \* the last import, for the properties
vars == <<sconf, blobs, conf, accts, last>>

NoConf == [has |-> FALSE, id |-> "", cert |-> "", addr |-> "", dir |-> FALSE]
Empty  == [NoConf EXCEPT !.has = TRUE]    \* an import that died before it was complete
Rec(s, a, d) == [t |-> "server", id |-> s, cert |-> s, addr |-> a, dir |-> d]
Conf(r) == [has |-> TRUE, id |-> r.id, cert |-> r.cert, addr |-> r.addr, dir |-> r.dir]

Init == /\ sconf \in [Servers -> [addr : {""}, dir : {FALSE}]]
        /\ blobs = <<>> /\ conf = [c \in Clients |-> NoConf] /\ accts = [s \in Servers |-> {}]
        /\ last = [f |-> FALSE, y |-> FALSE, d |-> FALSE]

Reconf(s, a, d) == sconf' = [sconf EXCEPT ![s] = [addr |-> a, dir |-> d]] /\ UNCHANGED <<blobs, conf, accts, last>>

\* the address comes from the command line or else from the configuration; without one there is nothing to export
ExportAddr(s, i) == IF i # "" THEN i ELSE sconf[s].addr
Export(s, i) == /\ ExportAddr(s, i) # ""
                /\ blobs' = Append(blobs, Rec(s, ExportAddr(s, i), sconf[s].dir))
                /\ UNCHANGED <<sconf, conf, accts, last>>
ExportClient(c) == blobs' = Append(blobs, [t |-> "client", id |-> c]) /\ UNCHANGED <<sconf, conf, accts, last>>

\* what an import into the root of client c makes of its configuration
Takes(c, r, damaged, force, yes) == ~damaged /\ r.t = "server" /\ (force \/ (~conf[c].has /\ yes))
ImportServer(c, r, damaged, force, yes) ==
    /\ conf' = IF Takes(c, r, damaged, force, yes) THEN [conf EXCEPT ![c] = Conf(r)] ELSE conf
    /\ last' = [f |-> force, y |-> yes, d |-> damaged]
    /\ UNCHANGED <<sconf, blobs, accts>>
\* it dies at some point: all or nothing, but for a configuration that was not there before
ImportDies(c, r, damaged, force, yes) ==
    \/ ImportServer(c, r, damaged, force, yes)
    \/ UNCHANGED <<sconf, blobs, conf, accts>> /\ last' = [f |-> force, y |-> yes, d |-> damaged]
    \/ /\ Takes(c, r, damaged, force, yes) /\ ~conf[c].has
       /\ conf' = [conf EXCEPT ![c] = Empty] /\ UNCHANGED <<sconf, blobs, accts>>
       /\ last' = [f |-> force, y |-> yes, d |-> damaged]
\* into the root of a server
ImportClient(s, r, damaged, force) ==
    /\ accts' = IF ~damaged /\ r.t = "client" THEN [accts EXCEPT ![s] = @ \cup {r.id}] ELSE accts
    /\ UNCHANGED <<sconf, blobs, conf, last>>

Next == \/ \E s \in Servers, a \in Addrs \cup {""}, d \in BOOLEAN : Reconf(s, a, d)
        \/ \E s \in Servers, a \in Addrs \cup {""} : Export(s, a)
        \/ \E c \in Clients : ExportClient(c)
        \/ \E i \in 1..Len(blobs), dm \in BOOLEAN, f \in BOOLEAN :
             \/ \E c \in Clients, y \in BOOLEAN : ImportServer(c, blobs[i], dm, f, y) \/ ImportDies(c, blobs[i], dm, f, y)
             \/ \E s \in Servers : blobs[i].t = "client" /\ ImportClient(s, blobs[i], dm, f)
Spec == Init /\ [][Next]_vars

Exported == {Conf(blobs[i]) : i \in {j \in 1..Len(blobs) : blobs[j].t = "server"}}
OnlyExported == \A c \in Clients : conf[c] \in Exported \cup {NoConf, Empty}
OnlyClients == \A s \in Servers : accts[s] \subseteq {blobs[i].id : i \in {j \in 1..Len(blobs) : blobs[j].t = "client"}}
\* a configuration is set with consent and replaced only by force, and never by something damaged
Guarded == [][\A c \in Clients : conf'[c] # conf[c] =>
                /\ last'.f \/ (last'.y /\ ~conf[c].has)
                /\ ~last'.d]_vars
Bounded == Len(blobs) <= 2
\* vacuity
NotReplaced == \A c \in Clients, i \in 1..Len(blobs) : ~(conf[c].has /\ blobs[i].t = "server" /\ conf[c] # Conf(blobs[i]) /\ last.f)
NotEmptied == \A c \in Clients : conf[c] # Empty
=============================================================================

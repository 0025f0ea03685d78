----------------------------- MODULE ExportTrace -----------------------------
EXTENDS Export, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1
TInit == Init /\ l = 1
TReset == /\ Is("reset") /\ sconf' = [s \in Servers |-> [addr |-> "", dir |-> FALSE]]
          /\ blobs' = <<>> /\ conf' = [c \in Clients |-> NoConf] /\ accts' = [s \in Servers |-> {}] /\ UNCHANGED last
TReconf == Is("reconf") /\ Reconf(Ev.p, Ev.k, Ev.b)
\* what was printed is the record (or its fingerprints), without secrets; a failed export prints nothing
TExport == /\ Is("export") /\ ~Ev.leak
           /\ IF Ev.ok THEN /\ Export(Ev.p, Ev.k)
                            /\ Ev.rec = blobs'[Len(blobs')]
              ELSE ExportAddr(Ev.p, Ev.k) = "" /\ UNCHANGED vars
TExportF == /\ Is("finger") /\ ~Ev.leak /\ UNCHANGED vars
            /\ Ev.ok
TExportC == Is("exportc") /\ ~Ev.leak /\ Ev.ok /\ ExportClient(Ev.p) /\ Ev.rec = blobs'[Len(blobs')]
Yes == Ev.k = "yes" \/ Ev.k = "y"
Damaged == Ev.v \notin {"", "wrap", "space"}
\* all configurations and accounts are as they should be, and no client lost its own identity
After == /\ \A c \in Clients : Ev.conf[c] = conf'[c]
         /\ \A s \in Servers : {Ev.accts[s][i] : i \in 1..Len(Ev.accts[s])} = accts'[s]
         /\ Ev.kept
TImport ==
    /\ Is("import")
    /\ IF Ev.i = 0 THEN IF Ev.kind = "kill" THEN ImportDies(Ev.p, blobs[Ev.n], Damaged, Ev.b, Yes)
                                            ELSE ImportServer(Ev.p, blobs[Ev.n], Damaged, Ev.b, Yes)
       ELSE LET c == Ev.p
                one == Takes(c, blobs[Ev.n], Damaged, Ev.b, Yes)
                c1 == IF one THEN [conf EXCEPT ![c] = Conf(blobs[Ev.n])] ELSE conf
                \* the answer is for the first question that is asked
                two == blobs[Ev.i].t = "server" /\ (Ev.b \/ (~c1[c].has /\ Yes))
                c2 == IF two THEN [c1 EXCEPT ![c] = Conf(blobs[Ev.i])] ELSE c1
            IN /\ conf' = c1 \/ conf' = c2
               /\ UNCHANGED <<sconf, blobs, accts>> /\ last' = [f |-> Ev.b, y |-> Yes, d |-> Damaged]
    /\ After
TImportC == Is("importc") /\ ImportClient(Ev.p, blobs[Ev.n], Damaged, Ev.b) /\ After
TNext == TReset \/ TReconf \/ TExport \/ TExportF \/ TExportC \/ TImport \/ TImportC
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE BlobTrace ------------------------------
EXTENDS Blob, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES blobs, l
tvars == <<b, blobs, l>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1 /\ UNCHANGED b
TInit == l = 1 /\ blobs = <<>> /\ b = {}
TReset == Is("reset") /\ blobs' = <<>>
\* l numbers the salts and nonces: every packing has fresh ones
TPack == Is("pack") /\ blobs' = (Ev.p :> Pack(l, Ev.k)) @@ blobs
Altered(x, y, v) ==
    CASE v = "" -> x
      [] v = "salt" -> [x EXCEPT !.salt = <<"x">>]
      [] v = "nonce" -> [x EXCEPT !.nonce = <<"x">>]
      [] v = "splice" -> [x EXCEPT !.salt = y.salt, !.nonce = y.nonce, !.whole = x /= y]
      [] OTHER -> [x EXCEPT !.whole = FALSE]
TOpen == /\ Is("open") /\ UNCHANGED blobs
         /\ Ev.ok <=> Opens(Altered(blobs[Ev.p], blobs[Ev.q], Ev.v), Ev.k)
         /\ Ev.ok => Ev.same
TNonce == Is("nonce") /\ UNCHANGED blobs /\ (Ev.ok <=> Ev.v = "") /\ (Ev.ok => Ev.same)
TNext == TReset \/ TPack \/ TOpen \/ TNonce
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

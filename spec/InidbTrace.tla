----------------------------- MODULE InidbTrace -----------------------------
EXTENDS Inidb, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, depth
tvars == <<vars, l, depth>>
Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1 /\ UNCHANGED depth
TInit == Init /\ l = 1 /\ depth = 0
TReset == /\ l <= Len(Trace) /\ Ev.op = "reset" /\ l' = l + 1 /\ depth' = Ev.depth
          /\ tabs' = {""} /\ recs' = {} /\ dtabs' = {""} /\ drecs' = {} /\ res' = "ok"
Res == res' = Ev.res
\* the whole content as the code reports it, and as the model has it
Same(ts, rs) == ToSet(Ev.tabs) = ts /\ ToSet(Ev.recs) = rs /\ Len(Ev.recs) = Cardinality(rs)
Full == Same(tabs', recs')
TNew == Is("newtable") /\ NewTable(Ev.t) /\ Full
TDelT == Is("deltable") /\ DelTable(Ev.t) /\ Res /\ Full
TSet == Is("set") /\ Set(Ev.t, Ev.k, Ev.v) /\ Res /\ Full
TDel == Is("del") /\ Del(Ev.t, Ev.k) /\ Res /\ Full
TGet == Is("get") /\ Get(Ev.t, Ev.k) /\ Res /\ Full
TSave == Is("save") /\ Save /\ Res /\ Full /\ Ev.backups <= depth /\ Ev.main
TReopen == Is("reopen") /\ Reopen /\ Res /\ Full
\* A save that was cut short or failed: what a fresh process finds
TFault == /\ Is("fault") /\ UNCHANGED vars
          /\ \/ Same(tabs, recs)
             \/ ~Ev.ok /\ Same(dtabs \cup {""}, drecs)
\* the same for the very first save, before which there was no database
TFault0 == /\ Is("fault0") /\ UNCHANGED vars
           /\ \/ Same({""}, {})
              \/ ~Ev.ok /\ Ev.missing
TNext == TReset \/ TNew \/ TDelT \/ TSet \/ TDel \/ TGet \/ TSave \/ TReopen \/ TFault \/ TFault0
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE IniSave ------------------------------
(* The steps of a save of the ini database, each of which may fail, be cut     *)
(* short, or be the last thing that happens before a crash.                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Protocol,  \* "copy": backup is a copy, the new file replaces the old by rename
                     \* "move": the old file is renamed away first;  "inplace": rewritten in place
          Checked,   \* errors of writes are noticed
          Depth, Versions, Chunks
VARIABLES mem, prev, main, tmp, backups, pc, ok, crashed
vars == <<mem, prev, main, tmp, backups, pc, ok, crashed>>
Missing == [v |-> 0, n |-> 0]
\* A file holds the first n of Chunks parts of version v, without holes if whole
File(v, n) == [v |-> v, n |-> n]
Complete(f) == f.n = Chunks
Init == /\ mem = 1 /\ prev = 1 /\ main = File(1, Chunks) /\ tmp = Missing
        /\ backups = <<>> /\ pc = "idle" /\ ok = TRUE /\ crashed = FALSE
Steps == CASE Protocol = "copy" -> <<"temp", "write", "backup", "replace", "prune">>
           [] Protocol = "move" -> <<"temp", "write", "moveaway", "replace", "prune">>
           [] Protocol = "inplace" -> <<"truncate", "writemain">>
NextStep(s) == LET i == CHOOSE j \in 1..Len(Steps) : Steps[j] = s
               IN IF i = Len(Steps) THEN "saved" ELSE Steps[i + 1]
Change == /\ pc = "idle" /\ mem < Versions /\ mem' = mem + 1
          /\ UNCHANGED <<prev, main, tmp, backups, pc, ok, crashed>>
Begin == /\ pc = "idle" /\ mem /= prev /\ pc' = Steps[1] /\ ok' = TRUE
         /\ UNCHANGED <<mem, prev, main, tmp, backups, crashed>>
Oldest(b) == IF Len(b) <= Depth THEN b ELSE SubSeq(b, Len(b) - Depth + 1, Len(b))
Do(lose) ==
    /\ pc \notin {"idle", "saved", "failed"}
    /\ CASE pc = "temp" -> tmp' = File(mem, 0) /\ UNCHANGED <<main, backups>>
         [] pc = "write" -> tmp' = File(mem, IF lose THEN Chunks - 1 ELSE Chunks) /\ UNCHANGED <<main, backups>>
         [] pc = "backup" -> backups' = Append(backups, main) /\ UNCHANGED <<main, tmp>>
         [] pc = "moveaway" -> backups' = Append(backups, main) /\ main' = Missing /\ UNCHANGED tmp
         [] pc = "replace" -> main' = tmp /\ tmp' = Missing /\ UNCHANGED backups
         [] pc = "prune" -> backups' = Oldest(backups) /\ UNCHANGED <<main, tmp>>
         [] pc = "truncate" -> main' = File(mem, 0) /\ UNCHANGED <<tmp, backups>>
         [] pc = "writemain" -> main' = File(mem, IF lose THEN Chunks - 1 ELSE Chunks) /\ UNCHANGED <<tmp, backups>>
    /\ IF lose /\ Checked THEN pc' = "failed" ELSE pc' = NextStep(pc)
    /\ UNCHANGED <<mem, prev, ok, crashed>>
Step == Do(FALSE)
Short == pc \in {"write", "writemain"} /\ Do(TRUE)
Error == /\ pc \notin {"idle", "saved", "failed"} /\ pc' = "failed"
         /\ UNCHANGED <<mem, prev, main, tmp, backups, ok, crashed>>
End == /\ pc \in {"saved", "failed"} /\ pc' = "idle" /\ ok' = (pc = "saved") /\ tmp' = Missing
       /\ prev' = IF Complete(main) THEN main.v ELSE prev
       /\ UNCHANGED <<mem, main, backups, crashed>>
Crash == ~crashed /\ crashed' = TRUE /\ pc' = "idle" /\ tmp' = Missing
         /\ mem' = main.v /\ prev' = (IF Complete(main) THEN main.v ELSE prev) /\ UNCHANGED <<main, backups, ok>>
Next == Change \/ Begin \/ Step \/ Short \/ Error \/ End \/ Crash
Spec == Init /\ [][Next]_vars
\* C12
OldOrNew == Complete(main) /\ main.v \in {prev, mem}
Durable == (pc = "saved") => main = File(mem, Chunks)
BackupBound == (pc = "saved") => Len(backups) <= Depth
Few == Len(backups) <= Depth + 2
NotCrashedHalf == ~(crashed /\ main.v > 1 /\ Len(backups) > 0)
=============================================================================

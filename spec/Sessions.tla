------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several parses at the same time, interleaved at the calls of their      *)
(* readers, and the composites they handed out.  A session p parses file   *)
(* job[p] in Reads steps; with its last step it returns, and what it       *)
(* returns depends on its file alone.  Returned composites are kept and    *)
(* are never touched again.  Later sessions start after earlier ones have  *)
(* returned (Generations): histories of parses.                            *)
(***************************************************************************)
EXTENDS MCDecoder

CONSTANTS Sessions, Reads, Jobs, Emitting,
          Breaking   \* whether readers may panic

VARIABLES job, at, store, schedule
svars == <<job, at, store, schedule>>

\* the variables of the single decoder are not used here
Idle == /\ k = CHOOSE f \in Names : TRUE
        /\ sent = 0 /\ src = "open" /\ pc = "header" /\ pos = 0
        /\ hdr = NoHeader /\ rows = <<>> /\ verdict = "none"

\* what parsing a file gives
Result(f) == LET s == Solo(TheFiles[f], Len(TheFiles[f]))
             IN  [v |-> s.v, c |-> IF Success(s.v) THEN CompositeOf(s) ELSE 0]

NotYet == [v |-> "none", c |-> 0]

SInit == /\ Idle /\ job \in [Sessions -> Jobs]
         /\ at = [p \in Sessions |-> 0]
         /\ store = [p \in Sessions |-> NotYet]
         /\ schedule = <<>>

\* the reader of session p answers its next call
Read(p) == /\ at[p] < Reads /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ store' = IF at[p] + 1 = Reads THEN [store EXCEPT ![p] = Result(job[p])] ELSE store
           /\ schedule' = Append(schedule, p)
           /\ UNCHANGED <<job, vars>>

\* the reader of session p panics: the session is gone, with nothing to keep
Gone == [v |-> "gone", c |-> 0]
Panic(p) == /\ Breaking /\ at[p] < Reads /\ at' = [at EXCEPT ![p] = Reads]
            /\ store' = [store EXCEPT ![p] = Gone]
            /\ schedule' = Append(schedule, -p)
            /\ UNCHANGED <<job, vars>>

\* somebody looks at a returned composite: points, projection
Look(p) == store[p] # NotYet /\ UNCHANGED <<svars, vars>>

SNext == \E p \in Sessions : Read(p) \/ Panic(p) \/ Look(p)
SSpec == SInit /\ [][SNext]_<<svars, vars>>

\* C14
Own     == \A p \in Sessions : store[p] \notin {NotYet, Gone} => store[p] = Result(job[p])
Forever == [][\A p \in Sessions : store[p] # NotYet => store'[p] = store[p]]_<<svars, vars>>
SameForSame == \A p, q \in Sessions : store[p] \notin {NotYet, Gone} /\ store[q] \notin {NotYet, Gone} /\ job[p] = job[q] => store[p] = store[q]
\* no session waits for another one, whatever became of that
NoWaiting == \A p \in Sessions : at[p] < Reads => ENABLED Read(p)

Finished == \A p \in Sessions : at[p] = Reads
Emit == Finished /\ Emitting => PrintT("SCEN " \o ToJson([job |-> job, reads |-> Reads, schedule |-> schedule]))
EmitFiles == schedule = <<>> /\ Emitting /\ job = [p \in Sessions |-> CHOOSE f \in Jobs : TRUE] =>
  \A f \in Jobs : LET s == Solo(TheFiles[f], Len(TheFiles[f]))
                  IN  PrintT("SCEN " \o ToJson([name |-> f, file |-> TheFiles[f], calls |-> <<>>, verdict |-> s.v, hdr |-> s.hdr,
                        plain |-> IF Success(s.v) THEN CompositeOf(s).plain ELSE <<>>,
                        layers |-> IF Success(s.v) THEN CompositeOf(s).z ELSE <<>>]))
=============================================================================

----------------------------- MODULE TraceRows -----------------------------
(***************************************************************************)
(* Validation of recorded parses of big run-length composites, row by row. *)
(* A line of the trace is [id, w, levels, rows, outcome, plain]: the bytes *)
(* of every row without its newline, and what the library made of them.    *)
(* The rows are read in the order of transmission; the first that is       *)
(* malformed ends the parse with an error.                                 *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES lineno, rowno, verdict
vars == <<lineno, rowno, verdict>>

Line == Trace[lineno]
Height == Len(Line.rows)

Init == lineno \in 1..Len(Trace) /\ rowno = 1 /\ verdict = "open"

Reject(why) == /\ verdict' = "rejected" /\ PrintT("REJECT " \o ToJson([id |-> Line.id, why |-> why]))
               /\ UNCHANGED <<lineno, rowno>>
Accept == verdict' = "accepted" /\ UNCHANGED <<lineno, rowno>>

\* the fold of Codec, with the cells put together once only
Row == \E s \in {RunRow(Line.rows[rowno], Line.w, Line.levels)} :
         IF s.st = "bad"
         THEN IF Line.outcome = "err" THEN Accept ELSE Reject("malformed row accepted")
         ELSE IF Line.outcome = "ok" /\ (Len(Line.plain) # Height \/ Line.plain[PlainRow("run", rowno, Height)] # s.row)
              THEN Reject("cells")
              ELSE rowno' = rowno + 1 /\ UNCHANGED <<lineno, verdict>>

Next == \/ verdict = "open" /\ rowno <= Height /\ (IF Line.outcome \in {"ok", "err"} THEN Row ELSE Reject("outcome"))
        \/ verdict = "open" /\ rowno > Height /\ (IF Line.outcome = "ok" THEN Accept ELSE Reject("outcome"))
        \/ verdict # "open" /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE TraceRaster ----------------------------
(***************************************************************************)
(* Validation of recorded renderings.  A line is [id, job |-> [dx, dy, dz, *)
(* layer], calls |-> << [cell, colour], ... >>, bounds, image |-> rows]:   *)
(* cell is 1 + x + y * dx, or 0 for a number that is no cell of the layer. *)
(***************************************************************************)
EXTENDS Raster, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES lineno, callno, verdict
vars == <<rastervars, lineno, callno, verdict>>

Line == Trace[lineno]
PlaceOf(cell) == <<(cell - 1) % job.dx, (cell - 1) \div job.dx>>

Init == /\ lineno \in 1..Len(Trace) /\ callno = 1 /\ verdict = "open"
        /\ Start(Trace[lineno].job)

Reject(why) == /\ verdict' = "rejected" /\ PrintT("REJECT " \o ToJson([id |-> Line.id, why |-> ToString(why)]))
               /\ UNCHANGED <<rastervars, lineno, callno>>

Call == /\ verdict = "open" /\ callno <= Len(Line.calls)
        /\ \E c \in {Line.calls[callno]} :
             IF c[1] > 0 /\ PlaceOf(c[1]) \in Wanted(job) \ shown
             THEN Show(PlaceOf(c[1]), c[2]) /\ callno' = callno + 1 /\ UNCHANGED <<lineno, verdict>>
             ELSE Reject("call")

Return == /\ verdict = "open" /\ callno = Len(Line.calls) + 1
          /\ CASE Line.outcome # "ok" -> Reject("outcome")
               [] ~Complete -> Reject("cells not shown")
               [] Line.bounds # <<0, 0, job.dx, job.dy>> -> Reject("bounds")
               [] \E p \in Places(job) : Line.image[p[2] + 1][p[1] + 1] # image[p] -> Reject("pixels")
               [] OTHER -> verdict' = "accepted" /\ UNCHANGED <<rastervars, lineno, callno>>
Done == verdict # "open" /\ UNCHANGED vars

Spec == Init /\ [][Call \/ Return \/ Done]_vars
View == <<lineno, callno, verdict>>
=============================================================================

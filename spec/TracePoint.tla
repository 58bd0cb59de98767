----------------------------- MODULE TracePoint -----------------------------
(***************************************************************************)
(* Validation of recorded point accesses.  Every line is one composite     *)
(* with its layers and a history of accesses:                              *)
(*   [id, dx, dy, l |-> layers, ev |-> << [x, y, z, r, n], ... >>]         *)
(* n: the result was recognised as missing.                                *)
(* Lines of kind "bits" ask only that, for values given by their exponent  *)
(* x, mantissa y and sign z.                                               *)
(* An access reads and changes nothing.                                    *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, l, volume

Line == Trace[k]

Init == k \in 1..Len(Trace) /\ l = 1 /\ volume = "unread"

Expected(e) == IF Line.kind = "bits" THEN NA ELSE PointAt(Line.l, Line.dx, Line.dy, e.x, e.y, e.z)

Right(e) == e.r = Expected(e) /\ e.n = IF Line.kind = "bits" THEN Missing(e.x, e.y) ELSE e.r = NA

Access == /\ l >= 1 /\ l <= Len(Line.ev)
          /\ Right(Line.ev[l])
          /\ l' = l + 1 /\ volume' = IF Line.ev[l].r = NA THEN volume ELSE "read"
          /\ UNCHANGED k

Reject == /\ l >= 1 /\ l <= Len(Line.ev)
          /\ ~Right(Line.ev[l])
          /\ PrintT("REJECT " \o ToJson([id |-> Line.id, why |-> ToString(<<Line.kind, Line.ev[l], Expected(Line.ev[l])>>)]))
          /\ l' = 0 /\ UNCHANGED <<k, volume>>

Done == (l = 0 \/ l > Len(Line.ev)) /\ UNCHANGED <<k, l, volume>>

Spec == Init /\ [][Access \/ Reject \/ Done]_<<k, l, volume>>

\* a composite without layers has no data
Blank == Line.l = <<>> => volume = "unread"
View == <<k, l, volume>>
=============================================================================

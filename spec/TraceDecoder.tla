---------------------------- MODULE TraceDecoder ----------------------------
(***************************************************************************)
(* Validation of recorded parses.  Every line of the trace file is one     *)
(* parse of the real library: the file, the calls of its reader, and what  *)
(* the library returned:                                                   *)
(*   [id, file, ev |-> << [e |-> "read", n |-> 5], [e |-> "end"],          *)
(*                        [e |-> "break"], [e |-> "late", n |-> 7],        *)
(*                        [e |-> "ret", ...] >>]                           *)
(* The decoder steps are not logged; they are taken as soon as they are    *)
(* enabled, between the logged events.  A return is a step of this         *)
(* specification only if the composite is the one the decoder built.       *)
(* Judged names the aspects that are compared.  A line that cannot be      *)
(* followed to its end is printed as REJECT with its reasons.              *)
(***************************************************************************)
EXTENDS Decoder, TLC, Json, IOUtils

CONSTANT Judged

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lines == 1..Len(Trace)
LineFile(i) == Trace[i].file

VARIABLE l                     \* next event

tvars == <<vars, l>>

Ev == Trace[k].ev[l]
IsEvent(e) == l >= 1 /\ l <= Len(Trace[k].ev) /\ Ev.e = e /\ l' = l + 1

TraceInit == Init /\ l = 1

Silent == Step /\ UNCHANGED l

ReadEv  == IsEvent("read")  /\ ~ENABLED Step /\ Deliver(Ev.n)
EndEv   == IsEvent("end")   /\ ~ENABLED Step /\ (End \/ (src # "open" /\ UNCHANGED vars))
LateEv  == IsEvent("late")  /\ ~ENABLED Step /\ Late
BreakEv == IsEvent("break") /\ ~ENABLED Step /\ (Break \/ (src # "open" /\ UNCHANGED vars))

\* what the composite must be, aspect by aspect
Expected ==
  LET c == Composite
  IN  [cells  |-> c.plain, layers |-> c.layers]

Differs(a, r) ==
  CASE a = "product" -> r.product # hdr.product
    [] a = "unit"    -> r.unit # hdr.unit
    [] a = "times"   -> r.cap # hdr.cap \/ r.fc # hdr.fc \/ r.int # hdr.int
    [] a = "version" -> r.fmt # hdr.fmt
    [] a = "dims"    -> \/ <<r.px, r.py, r.dx, r.dy>> # <<hdr.px, hdr.py, hdr.dx, hdr.dy>>
                        \/ Len(r.plain) # hdr.py
                        \/ \E y \in 1..Len(r.plain) : Len(r.plain[y]) # hdr.px
                        \/ r.dz # Len(r.z)
                        \/ \E z \in 1..Len(r.z) : \/ Len(r.z[z]) # hdr.dy
                                                  \/ \E y \in 1..Len(r.z[z]) : Len(r.z[z][y]) # hdr.dx
    [] a = "cells"   -> r.plain # Composite.plain
    [] a = "layers"  -> r.z # Layers(r.plain, hdr.dy) \/ ~r.alias \/ r.dz # Len(r.z)
    [] a = "data"    -> r.z # Composite.layers \/ ~r.alias
    [] a = "proj"    -> r.proj # (hdr.proj # "none")
    [] a = "res"     -> r.res # (IF hdr.proj # "none" THEN 3 ELSE hdr.res)

\* reasons to reject the return r; the decoder is done or would starve
Reasons(r) ==
  CASE verdict = "wild" -> IF r.outcome \in {"ok", "unit", "err"} THEN {} ELSE {"outcome"}
    [] verdict \in {"err", "none"} ->
         IF r.outcome = "err" \/ (r.outcome \in {"ok", "unit"} /\ "reject" \notin Judged)
         THEN {} ELSE {"outcome"}
    [] OTHER ->
         IF r.outcome \notin {"ok", "unit"} THEN {"outcome"}
         ELSE (IF "unit" \in Judged /\ r.outcome # verdict THEN {"outcome"} ELSE {})
              \cup {a \in Judged \ {"reject"} : Differs(a, r)}

\* a result before the decoder could decide is acceptable only if the rest
\* of the file cannot make it a composite
Premature == pc # "done" /\ Success(Solo(File, Len(File)).v)

Why(r) == IF Premature THEN {"premature"} ELSE Reasons(r)

\* the return is a step of the specification
RetEv == /\ IsEvent("ret") /\ ~ENABLED Step /\ Why(Ev) = {}
         /\ UNCHANGED vars

\* it is not: the recorded execution leaves the specification (l = 0)
Reject == /\ l >= 1 /\ l <= Len(Trace[k].ev) /\ Ev.e = "ret" /\ ~ENABLED Step
          /\ \E w \in {Why(Ev)} : /\ w # {}
                                 /\ PrintT("REJECT " \o ToJson([id |-> Trace[k].id, why |-> ToString(w), end |-> IF Success(verdict) THEN pos ELSE 0]))
          /\ l' = 0 /\ UNCHANGED vars

Finished == (l = 0 \/ l > Len(Trace[k].ev)) /\ UNCHANGED tvars

TraceNext == Silent \/ ReadEv \/ EndEv \/ BreakEv \/ LateEv \/ RetEv \/ Reject \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* a recorded execution is deterministic: the rest of the state follows from
\* the positions, so states are told apart by these only
TraceView == <<k, l, pos, pc, sent, src, Len(rows), verdict>>

\* the invariants of the specification along recorded executions
Along == NothingMissing /\ Shape /\ UnknownUnit
=============================================================================

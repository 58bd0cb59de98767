---------------------------- MODULE TraceArchive ----------------------------
(***************************************************************************)
(* Validation of recorded archive readings.  A line is                     *)
(*   [id, members |-> << file, ... >>, stop, outcome, res |-> << ... >>]   *)
(* stop = 0: the archive is sound; stop = n: its stream stops within       *)
(* member n (or behind the last).  The members are parsed by the           *)
(* specification; the archive reader takes them one after the other.       *)
(***************************************************************************)
EXTENDS Parse, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, mem, got, st
vars == <<k, mem, got, st>>

Line == Trace[k]
Init == k \in 1..Len(Trace) /\ mem = 1 /\ got = <<>> /\ st = "reading"

Parsed(m) == Solo(Line.members[m], Len(Line.members[m]))

TakeMember == /\ st = "reading" /\ mem <= Len(Line.members) /\ Line.stop # mem
              /\ \E s \in {Parsed(mem)} :
                     CASE s.v = "ok"   -> got' = Append(got, CompositeOf(s)) /\ mem' = mem + 1 /\ UNCHANGED st
                       [] s.v = "wild" -> st' = "open" /\ UNCHANGED <<got, mem>>
                       [] OTHER        -> st' = "err" /\ UNCHANGED <<got, mem>>
              /\ UNCHANGED k

Stop == st = "reading" /\ Line.stop = mem /\ st' = "err" /\ UNCHANGED <<k, mem, got>>

End == /\ st = "reading" /\ mem = Len(Line.members) + 1 /\ Line.stop # mem
       /\ st' = "ok" /\ UNCHANGED <<k, mem, got>>

\* the recorded composites
Logged(r) == [product |-> r.product, unit |-> r.unit, cap |-> r.cap, fc |-> r.fc, int |-> r.int, fmt |-> r.fmt,
              px |-> r.px, py |-> r.py, dx |-> r.dx, dy |-> r.dy, dz |-> r.dz,
              res |-> r.res, proj |-> r.proj, plain |-> r.plain, z |-> r.z]

Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})

Why ==
  LET res == [j \in 1..Len(Line.res) |-> Logged(Line.res[j])]
  IN  CASE Line.outcome \notin {"ok", "err"} -> {"outcome"}
        [] st = "open" -> {}
        [] st = "err"  -> IF Line.outcome = "err" /\ res = <<>> THEN {} ELSE {"success"}
        [] OTHER ->
             IF Line.outcome # "ok" THEN {"failure"}
             ELSE (IF Len(res) # Len(got) THEN {"number"} ELSE {})
                  \cup (IF \E j \in 1..Len(got) : Count(res, got[j]) # Count(got, got[j]) THEN {"members"} ELSE {})
                  \cup (IF \E j \in 1..(Len(res) - 1) : res[j].fc > res[j + 1].fc THEN {"order"} ELSE {})

Return == /\ st \in {"ok", "err", "open"}
          /\ \E w \in {Why} : /\ st' = IF w = {} THEN "done" ELSE "rejected"
                              /\ w # {} => PrintT("REJECT " \o ToJson([id |-> Line.id, why |-> ToString(w)]))
          /\ UNCHANGED <<k, mem, got>>
Done == st \in {"done", "rejected"} /\ UNCHANGED vars

Spec == Init /\ [][TakeMember \/ Stop \/ End \/ Return \/ Done]_vars
View == <<k, mem, st>>
=============================================================================

----------------------------- MODULE GenDecoder -----------------------------
(***************************************************************************)
(* Prints every behaviour of the small model as a scenario for replay: the *)
(* calls of the reader in order and what must be returned.                 *)
(***************************************************************************)
EXTENDS MCDecoder

VARIABLE calls

GenCuts(f) == LET b == TheFiles[f]
                  n == Len(b)
                  e == Find(b, ETX, 1, n)
              IN  ({21, e - 1, e, e + 1, e + 3, e + 4, n - 2, n - 1, n}) \cap (1..n)

GInit == Init /\ calls = <<>>

Quiet == ~ENABLED Step

GNext == \/ Step /\ UNCHANGED calls
         \/ /\ Quiet /\ pc # "done"
            /\ \/ \E c \in GenCuts(k) : c > sent /\ Deliver(c - sent) /\ calls' = Append(calls, c - sent)
               \/ End /\ calls' = Append(calls, 0)
               \/ Break /\ calls' = Append(calls, -1)

GSpec == GInit /\ [][GNext]_<<vars, calls>>

Emit == pc = "done" =>
  PrintT("SCEN " \o ToJson([
    name |-> k, file |-> File, calls |-> calls, verdict |-> verdict, end |-> IF Success(verdict) THEN pos ELSE 0,
    hdr  |-> hdr,
    plain |-> IF Success(verdict) THEN Composite.plain ELSE <<>>,
    layers |-> IF Success(verdict) THEN Composite.layers ELSE <<>>]))
=============================================================================

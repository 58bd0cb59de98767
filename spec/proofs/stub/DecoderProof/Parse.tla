------------------------------- MODULE Parse -------------------------------
(* For TLAPS, which knows no recursive operators: they are opaque here.     *)
(* What DecoderProof needs to know of them it states as assumptions.        *)
EXTENDS Codec

CONSTANTS Find(_, _, _, _), ParseHeader(_), Concat(_), Solo(_, _), Label(_), Known, ETX, LF, From(_, _)

NoHeader == [k |-> "none"]

RowEndOf(f, n, h, p) ==
  IF h.enc = "run" THEN Find(f, LF, p + 1, n)
  ELSE IF p + RowBytes(h.enc, h.px) <= n THEN p + RowBytes(h.enc, h.px) ELSE 0

Success(v) == v \in {"ok", "unit"}
=============================================================================

------------------------------- MODULE Parse -------------------------------
(* The parse of a complete file as a function. *)
EXTENDS Header

NoHeader == [k |-> "none"]

(* positions of delimiters among the delivered bytes, 0 if there is none yet; *)
(* looked for in portions, so that near ones are cheap                        *)
RECURSIVE Find(_, _, _, _)
Find(f, b, i, lim) ==
  IF i > lim THEN 0
  ELSE LET to == IF lim - i > 400 THEN i + 400 ELSE lim
           j  == SelectInSeq(SubSeq(f, i, to), LAMBDA c : c = b)
       IN  IF j # 0 THEN i + j - 1 ELSE Find(f, b, to + 1, lim)

(* \E, CHOOSE and sets make TLC evaluate a value once. *)
Once(S) == CHOOSE x \in S : TRUE

(* The same decoder as a function: the verdict for the first n bytes of a  *)
(* file followed by the end of input or a failure.                         *)
RowEndOf(f, n, h, p) ==
  IF h.enc = "run" THEN Find(f, LF, p + 1, n)
  ELSE IF p + RowBytes(h.enc, h.px) <= n THEN p + RowBytes(h.enc, h.px) ELSE 0

\* the state after one more row; v = "none" as long as all is well
SoloRow(f, n, h, s) ==
  IF s.v # "none" THEN s
  ELSE Once({ IF e = 0 THEN [s EXCEPT !.v = "err"]
              ELSE Once({ IF r.ok THEN [s EXCEPT !.rows = Append(@, r.cells), !.pos = e]
                          ELSE [s EXCEPT !.v = "err", !.pos = e] :
                          r \in {DecodeRow(h.enc, SubSeq(f, s.pos + 1, IF h.enc = "run" THEN e - 1 ELSE e), h.px, h.levels)} }) :
              e \in {RowEndOf(f, n, h, s.pos)} })

SoloRows(f, n, h, p) ==
  LET s == FoldLeft(LAMBDA a, r : SoloRow(f, n, h, a), [v |-> "none", rows |-> <<>>, pos |-> p], [r \in 1..h.py |-> r])
  IN  IF s.v # "none" THEN s ELSE [s EXCEPT !.v = IF h.unit = "unknown" THEN "unit" ELSE "ok"]

SoloOf(f, n, e, h) ==
  IF h.k # "ok" THEN [v |-> IF h.k = "bad" THEN "err" ELSE "wild", rows |-> <<>>, pos |-> e, hdr |-> NoHeader]
  ELSE Once({[v |-> s.v, rows |-> s.rows, pos |-> s.pos, hdr |-> h] : s \in {SoloRows(f, n, h, e)}})

Solo(f, n) ==
  LET e == Find(f, ETX, 1, n)
  IN  IF e = 0 THEN [v |-> "err", rows |-> <<>>, pos |-> 0, hdr |-> NoHeader]
      ELSE Once({SoloOf(f, n, e, h) : h \in {ParseHeader(SubSeq(f, 1, e - 1))}})

Success(v) == v \in {"ok", "unit"}

(* The composite handed out for a successful parse s = Solo(f, n) *)
CompositeOf(s) ==
  LET h == s.hdr
      plain == Plain(h.enc, s.rows)
      z == Layers(plain, h.dy)
  IN  [product |-> h.product, unit |-> h.unit, cap |-> h.cap, fc |-> h.fc, int |-> h.int, fmt |-> h.fmt,
       px |-> h.px, py |-> h.py, dx |-> h.dx, dy |-> h.dy, dz |-> Len(z),
       res |-> IF h.proj # "none" THEN 3 ELSE h.res, proj |-> h.proj # "none",
       plain |-> plain, z |-> z]
=============================================================================

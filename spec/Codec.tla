------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The three encodings of cells.  An abstract cell is an integer m or NA   *)
(* (NaN).  What m means physically is fixed per composite by Scale:        *)
(*   level table        m ten-thousandths                                  *)
(*   otherwise          m * 10^precision, and for dBZ products half of     *)
(*                      that minus 32.5                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NA == 99999999

Scale(unit, prec, leveled) ==
  IF leveled THEN [exp |-> -4, dbz |-> FALSE]
  ELSE [exp |-> prec, dbz |-> unit = "dBZ"]

(* one byte per cell *)
OneByte(b) == IF b = 250 THEN NA ELSE b

(* two bytes per cell, low byte first *)
Bit(b, i) == (b \div 2^i) % 2
TwoByte(lo, hi) ==
  LET mag == (hi % 16) * 256 + lo
  IN  IF Bit(hi, 5) = 1 THEN NA
      ELSE IF Bit(hi, 6) = 1 THEN -mag ELSE mag

(* run-length rows: an automaton reading one byte at a time *)
RowStart(width) == [st |-> "skip", at |-> 0, row |-> [x \in 1..width |-> NA]]

LevelCell(levels, sel) == IF sel = 0 \/ sel > Len(levels) THEN NA ELSE levels[sel]

ReadLineNumber(s, b) == [s EXCEPT !.st = "offset"]

ReadOffset(s, b) ==
  IF b < 16 THEN [s EXCEPT !.st = "bad"]
  ELSE [s EXCEPT !.at = @ + (b - 16), !.st = IF b = 255 THEN "offset" ELSE "runs"]

ReadRun(s, b, levels) ==
  LET n == b \div 16
      v == LevelCell(levels, b % 16)
  IN  IF n > 0 /\ s.at + n > Len(s.row) THEN [s EXCEPT !.st = "bad"]
      ELSE [s EXCEPT !.at = @ + n,
                     !.row = IF n = 0 THEN @
                             ELSE [x \in 1..Len(@) |-> IF x > s.at /\ x <= s.at + n THEN v ELSE @[x]]]

RowStep(s, b, levels) ==
  CASE s.st = "bad"    -> s
    [] s.st = "skip"   -> ReadLineNumber(s, b)
    [] s.st = "offset" -> ReadOffset(s, b)
    [] s.st = "runs"   -> ReadRun(s, b, levels)

RunRow(bytes, width, levels) ==
  FoldLeft(LAMBDA s, b : RowStep(s, b, levels), RowStart(width), bytes)

(* rows as [ok, cells] *)
DecodeRow(enc, bytes, width, levels) ==
  CASE enc = "one" -> [ok |-> TRUE, cells |-> [x \in 1..width |-> OneByte(bytes[x])]]
    [] enc = "two" -> [ok |-> TRUE, cells |-> [x \in 1..width |-> TwoByte(bytes[2*x - 1], bytes[2*x])]]
    [] enc = "run" -> LET s == RunRow(bytes, width, levels)
                      IN  [ok |-> s.st # "bad", cells |-> s.row]

RowBytes(enc, width) == IF enc = "one" THEN width ELSE 2 * width

\* the r-th transmitted row (from 1) is this row of the plain data (from 1)
PlainRow(enc, r, height) == IF enc = "run" THEN r ELSE height + 1 - r

\* plain data from rows in the order of transmission
Plain(enc, rows) ==
  [y \in 1..Len(rows) |-> rows[PlainRow(enc, y, Len(rows))]]   \* PlainRow is an involution

(* layers *)
Layers(plain, dy) ==
  LET py == Len(plain)
  IN  IF py % dy = 0
      THEN [z \in 1..(py \div dy) |-> [y \in 1..dy |-> plain[(z - 1) * dy + y]]]
      ELSE << [y \in 1..dy |-> plain[py - dy + y]] >>

(* point access: total on integers, coordinates from 0 *)
PointAt(layers, dx, dy, x, y, z) ==
  IF z \in 0..(Len(layers) - 1) /\ y \in 0..(dy - 1) /\ x \in 0..(dx - 1)
  THEN layers[z + 1][y + 1][x + 1] ELSE NA

(* missing values are the not-a-numbers of the single precision format:    *)
(* all bits of the exponent set and any bit of the mantissa, either sign   *)
Missing(exponent, mantissa) == exponent = 255 /\ mantissa # 0
=============================================================================

----------------------------- MODULE CodecProof -----------------------------
(***************************************************************************)
(* Rows and layers of grids of any size, and the row automaton on rows of  *)
(* any bytes and width, proved with TLAPS.                                 *)
(***************************************************************************)
EXTENDS Codec, TLAPS

\* rows are put in place without loss: the order of transmission is its own inverse
THEOREM Involution ==
  ASSUME NEW enc, NEW h \in Nat, NEW r \in 1..h
  PROVE  PlainRow(enc, r, h) \in 1..h /\ PlainRow(enc, PlainRow(enc, r, h), h) = r
  BY DEF PlainRow

THEOREM PlainKeeps ==
  ASSUME NEW enc, NEW S, NEW rows \in Seq(S)
  PROVE  /\ Plain(enc, rows) \in Seq(S) /\ Len(Plain(enc, rows)) = Len(rows)
         /\ \A r \in 1..Len(rows) : Plain(enc, rows)[PlainRow(enc, r, Len(rows))] = rows[r]
<1> DEFINE h == Len(rows)
<1>1. \A y \in 1..h : PlainRow(enc, y, h) \in 1..h /\ PlainRow(enc, PlainRow(enc, y, h), h) = y
  BY Involution
<1>2. \A y \in 1..h : rows[PlainRow(enc, y, h)] \in S
  BY <1>1
<1> HIDE DEF h
<1>3. h \in Nat
  BY DEF h
<1> DEFINE f == [y \in 1..h |-> rows[PlainRow(enc, y, h)]]
<1>4. f \in [1..h -> S]
  BY <1>2
<1> HIDE DEF f
<1>5. f \in Seq(S)
  BY <1>3, <1>4 DEF Seq
<1>6. DOMAIN f = 1..h
  BY <1>4
<1>7. Len(f) = h
  BY <1>3, <1>5, <1>6
<1>8. Plain(enc, rows) = f
  BY DEF Plain, h, f
<1>9. \A r \in 1..h : f[PlainRow(enc, r, h)] = rows[r]
  BY <1>1 DEF f
<1> QED
  BY <1>5, <1>7, <1>8, <1>9 DEF h

\* layers: every plain row is in exactly one place if the heights divide
THEOREM LayersCut ==
  ASSUME NEW S, NEW plain \in Seq(S), NEW dy \in Nat \ {0}, Len(plain) % dy = 0
  PROVE  \A z \in 1..(Len(plain) \div dy) : \A y \in 1..dy :
           /\ (z - 1) * dy + y \in 1..Len(plain)
           /\ Layers(plain, dy)[z][y] = plain[(z - 1) * dy + y]
<1> DEFINE n == Len(plain)  q == n \div dy
<1> n \in Nat /\ q \in Nat
  OBVIOUS
<1>1. n = q * dy
  OBVIOUS
<1> HIDE DEF q
<1>2. ASSUME NEW z \in 1..q, NEW y \in 1..dy
      PROVE (z - 1) * dy + y \in 1..n
  <2> z - 1 \in Nat /\ z - 1 <= q - 1
    OBVIOUS
  <2>1. (z - 1) * dy >= 0 /\ (z - 1) * dy \in Int
    OBVIOUS
  <2>2. (z - 1) * dy <= (q - 1) * dy
    OBVIOUS
  <2>3. (q - 1) * dy = q * dy - dy
    OBVIOUS
  <2> QED
    BY <1>1, <2>1, <2>2, <2>3
<1> QED
  BY <1>2 DEF Layers, q

\* cells of two bytes
THEOREM TwoByteRange ==
  ASSUME NEW lo \in 0..255, NEW hi \in 0..255
  PROVE  TwoByte(lo, hi) = NA \/ TwoByte(lo, hi) \in -4095..4095
<1> hi % 16 \in 0..15
  OBVIOUS
<1> (hi % 16) * 256 + lo \in 0..4095
  OBVIOUS
<1> QED
  BY DEF TwoByte

\* the row automaton never leaves its row, and a cell holds a level or nothing
IsLevel(v, levels) == v = NA \/ \E i \in 1..Len(levels) : v = levels[i]
RowInv(s, w, levels) ==
  /\ s = [st |-> s.st, at |-> s.at, row |-> s.row]
  /\ s.st \in {"skip", "offset", "runs", "bad"}
  /\ s.at \in Nat
  /\ s.row = [x \in 1..w |-> s.row[x]]
  /\ \A x \in 1..w : IsLevel(s.row[x], levels)

THEOREM RowBegins ==
  ASSUME NEW w \in Nat, NEW levels
  PROVE  RowInv(RowStart(w), w, levels)
  BY DEF RowInv, RowStart, IsLevel

THEOREM RowGoesOn ==
  ASSUME NEW w \in Nat, NEW S, NEW levels \in Seq(S), NEW s, RowInv(s, w, levels), NEW b \in 0..255
  PROVE  RowInv(RowStep(s, b, levels), w, levels) /\ RowStep(s, b, levels).at >= s.at
<1> USE DEF RowInv
<1>0. DOMAIN s.row = 1..w /\ Len(s.row) = w
  OBVIOUS
<1>1. CASE s.st = "bad"
  BY <1>1 DEF RowStep
<1>2. CASE s.st = "skip"
  BY <1>2 DEF RowStep, ReadLineNumber
<1>3. CASE s.st = "offset"
  <2>1. CASE b < 16
    BY <1>3, <2>1 DEF RowStep, ReadOffset
  <2>2. CASE b >= 16
    BY <1>3, <2>2 DEF RowStep, ReadOffset
  <2> QED
    BY <2>1, <2>2
<1>4. CASE s.st = "runs"
  <2> DEFINE n == b \div 16  v == LevelCell(levels, b % 16)
  <2>1. n \in Nat /\ b % 16 \in 0..15
    OBVIOUS
  <2>2. IsLevel(v, levels)
    BY <2>1 DEF IsLevel, LevelCell
  <2> HIDE DEF n, v
  <2>3. CASE n > 0 /\ s.at + n > w
    BY <1>0, <1>4, <2>1, <2>3 DEF RowStep, ReadRun, n
  <2>4. CASE n = 0
    BY <1>0, <1>4, <2>1, <2>4 DEF RowStep, ReadRun, n
  <2>5. CASE n > 0 /\ ~(s.at + n > w)
    <3> DEFINE r == [x \in 1..w |-> IF x > s.at /\ x <= s.at + n THEN v ELSE s.row[x]]
    <3>1. RowStep(s, b, levels) = [st |-> "runs", at |-> s.at + n, row |-> r]
      BY <1>0, <1>4, <2>1, <2>5 DEF RowStep, ReadRun, n, v
    <3>2. \A x \in 1..w : IsLevel(r[x], levels)
      BY <2>2
    <3> QED
      BY <3>1, <3>2, <2>1
  <2> QED
    BY <2>1, <2>3, <2>4, <2>5
<1> QED
  BY <1>1, <1>2, <1>3, <1>4

\* access to points is total: a cell of the layers, or nothing
THEOREM PointTotal ==
  ASSUME NEW S, NEW dx \in Nat, NEW dy \in Nat, NEW x \in Int, NEW y \in Int, NEW z \in Int,
         NEW layers, \A a \in 1..Len(layers) : \A b \in 1..dy : \A c \in 1..dx : layers[a][b][c] \in S, Len(layers) \in Nat
  PROVE  PointAt(layers, dx, dy, x, y, z) \in S \cup {NA}
  BY DEF PointAt
=============================================================================

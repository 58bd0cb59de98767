-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Bytes, the ASCII texts made of them, and the number formats that occur  *)
(* in composite headers.  A text is a sequence of byte values 0..255.      *)
(*                                                                         *)
(* Readers of numbers return a record [k, v, rest]:                        *)
(*   k = "ok"    v is the number, rest the remaining text                  *)
(*   k = "bad"   there is no number: the header is malformed               *)
(*   k = "wild"  the format does not say what this text means; the         *)
(*               specification then allows any outcome but a crash         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* codes of the one-character strings (the quote and the backslash are left out)
Ord == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
          LET i == CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c
          IN  CASE i <= 2  -> 31 + i       \* " !"
                [] i <= 59 -> 32 + i       \* "#" .. "["
                [] OTHER   -> 33 + i]      \* "]" .. "~"

Chr == [o \in {Ord[c] : c \in DOMAIN Ord} |-> CHOOSE c \in DOMAIN Ord : Ord[c] = o]

\* the text of a TLA+ string
T(s) == [i \in 1..Len(s) |-> Ord[SubSeq(s, i, i)]]

\* the TLA+ string of a text ("?" for bytes without printable character)
RECURSIVE Str(_)
Str(t) == IF t = <<>> THEN ""
          ELSE (IF Head(t) \in DOMAIN Chr THEN Chr[Head(t)] ELSE "?") \o Str(Tail(t))

Blank == 32
ETX   == 3
LF    == 10

IsUpper(b) == b \in 65..90
IsDigit(b) == b \in 48..57
IsAscii(t) == \A i \in 1..Len(t) : t[i] < 128

From(t, i)      == SubSeq(t, i, Len(t))
Repeat(b, n)    == [i \in 1..n |-> b]

Ok(v, rest) == [k |-> "ok", v |-> v, rest |-> rest]
Bad         == [k |-> "bad", v |-> 0, rest |-> <<>>]
Wild        == [k |-> "wild", v |-> 0, rest |-> <<>>]

\* length of the longest prefix of t whose bytes satisfy P
SpanLen(t, P(_)) ==
  LET stops == {i \in 1..Len(t) : ~P(t[i])}
  IN  IF stops = {} THEN Len(t)
      ELSE (CHOOSE i \in stops : \A j \in stops : i <= j) - 1

RECURSIVE Digits(_, _)
Digits(t, acc) == IF t = <<>> THEN acc ELSE Digits(Tail(t), acc * 10 + (Head(t) - 48))

\* white space of which the header format makes no use
OddSpace == {9, 10, 11, 12, 13, 133, 160}

\* an optionally signed decimal number after optional blanks; at most nine
\* significant digits are given a meaning
ScanInt(t) ==
  LET sp   == SpanLen(t, LAMBDA b : b = Blank)
      u    == From(t, sp + 1)
      sgn  == u # <<>> /\ u[1] \in {43, 45}
      w    == IF sgn THEN From(u, 2) ELSE u
      n    == SpanLen(w, IsDigit)
      lead == SpanLen(w, LAMBDA b : b = 48)
      z    == IF lead < n THEN lead ELSE n
  IN  CASE u # <<>> /\ u[1] \in OddSpace      -> Wild
        [] ~IsAscii(t)                         -> Wild
        [] n = 0                               -> Bad
        [] n - z > 9                           -> Wild
        [] OTHER -> Ok((IF sgn /\ u[1] = 45 THEN -1 ELSE 1) * Digits(SubSeq(w, z + 1, n), 0),
                       From(w, n + 1))

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

\* number of ten-thousandths in a Fortran field of five characters; a point in
\* the text counts, whatever number of decimals the format asks for
ScanLevel(t) ==
  LET sp  == SpanLen(t, LAMBDA b : b = Blank)
      v   == From(t, sp + 1)
      u   == SubSeq(v, 1, SpanLen(v, LAMBDA b : b # Blank))
      all == \A i \in (Len(u) + 1)..Len(v) : v[i] = Blank
      neg == u # <<>> /\ u[1] = 45
      w   == IF u # <<>> /\ u[1] \in {43, 45} THEN From(u, 2) ELSE u
      n   == SpanLen(w, IsDigit)
      d   == Len(w) - n - 1       \* decimals
  IN  IF ~all THEN Wild
      ELSE IF /\ Len(t) = 5 /\ d >= 1 /\ w[n + 1] = 46
         /\ \A i \in (n + 2)..Len(w) : IsDigit(w[i])
      THEN Ok((IF neg THEN -1 ELSE 1) * (10000 * Digits(SubSeq(w, 1, n), 0) + Pow10(4 - d) * Digits(From(w, n + 2), 0)), <<>>)
      ELSE IF u = <<>> \/ (\A i \in 1..Len(u) : u[i] \in 97..122 \cup {60, 62, 44}) THEN
             \* blank or plain lower-case text, apart from the words of special values
             IF u # <<>> /\ u[1] \in {105, 110} THEN Wild ELSE Bad
      ELSE Wild

\* Fortran I fields: the number n in exactly w characters
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
SDec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
PadL(t, w, b) == IF Len(t) >= w THEN t ELSE Repeat(b, w - Len(t)) \o t
I(n, w)  == PadL(SDec(n), w, Blank)
I0(n, w) == PadL(SDec(n), w, 48)
F51(tenths) ==
  LET a == IF tenths < 0 THEN -tenths ELSE tenths
  IN  PadL((IF tenths < 0 THEN <<45>> ELSE <<>>) \o Dec(a \div 10) \o <<46>> \o Dec(a % 10), 5, Blank)
=============================================================================

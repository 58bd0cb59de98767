------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The header: text up to ETX.  ParseHeader maps it to a record; Render    *)
(* makes the text of an abstract header, so that ParseHeader o Render can  *)
(* be checked to be the identity.                                          *)
(***************************************************************************)
EXTENDS Text, Catalog, Grid, Codec

MaxDimension == 9999           \* four characters

------------------------------------------------------------- (* fields *)
\* a field starts at an upper-case letter that does not follow another one
FieldStarts(h) == IF h = <<>> \/ ~IsUpper(h[1]) THEN {}
                  ELSE {i \in 1..Len(h) : IsUpper(h[i]) /\ (i = 1 \/ ~IsUpper(h[i - 1]))}

KeyLen(h, s) == SpanLen(From(h, s), IsUpper)

FieldAt(h, s, starts) ==
  LET later == {j \in starts : j > s}
      stop  == IF later = {} THEN Len(h) ELSE (CHOOSE j \in later : \A l \in later : j <= l) - 1
      kl    == KeyLen(h, s)
  IN  [key |-> SubSeq(h, s, s + kl - 1), text |-> SubSeq(h, s + kl, stop)]

Fields(h) == LET ss == FieldStarts(h) IN {<<s, FieldAt(h, s, ss)>> : s \in ss}

\* occurrences of a named field
Named(fs, key) == {f \in fs : f[2].key = key}

------------------------------------------------------------ (* calendar *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(m, y) == CASE m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 31
FullYear(yy) == IF yy >= 69 THEN 1900 + yy ELSE 2000 + yy
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(m, y) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(m - 1, y) + DaysIn(m - 1, y)
\* minutes since 1970
Minutes(y, mo, d, hh, mi) ==
  (DaysBeforeYear(y) - DaysBeforeYear(1970) + DaysBeforeMonth(mo, y) + d - 1) * 1440 + hh * 60 + mi

\* ddhhmm and mmyy
CaptureTime(a, b) ==
  \* a signed year is left to the implementation
  IF b[3] \in {43, 45} THEN Wild
  ELSE IF \E i \in 1..6 : ~IsDigit(a[i]) THEN Bad
  ELSE IF \E i \in 1..4 : ~IsDigit(b[i]) THEN Bad
  ELSE LET N(t, i) == Digits(SubSeq(t, i, i + 1), 0)
           d == N(a, 1)  hh == N(a, 3)  mi == N(a, 5)
           mo == N(b, 1) y == FullYear(N(b, 3))
       IN  IF mo \in 1..12 /\ hh <= 23 /\ mi <= 59 /\ d >= 1 /\ d <= DaysIn(mo, y)
           THEN Ok(Minutes(y, mo, d, hh, mi), <<>>) ELSE Bad

------------------------------------------------------- (* single fields *)
NoField == [k |-> "none", v |-> 0, rest |-> <<>>]

\* text behind a number has no defined meaning
Alone(r) == IF r.k = "ok" /\ \E i \in 1..Len(r.rest) : r.rest[i] # Blank THEN Wild ELSE r

\* a number field that may be absent; given twice it has no defined meaning
OptInt(fs, key, Read(_)) ==
  LET n == Named(fs, key)
  IN  CASE n = {} -> NoField
        [] Cardinality(n) > 1 -> Wild
        [] OTHER -> Alone(Read((CHOOSE f \in n : TRUE)[2].text))

\* minutes have at most seven digits
ScanMinutes(t) == LET r == ScanInt(t)
                  IN  IF r.k = "ok" /\ (r.v > 9999999 \/ r.v < -9999999) THEN Wild ELSE r

\* rows "x" columns
ScanGP(t) ==
  LET a == ScanInt(t)
  IN  IF a.k # "ok" THEN a
      ELSE IF a.rest = <<>> THEN Bad
      ELSE IF a.rest[1] # 120 THEN (IF \E i \in 1..Len(a.rest) : a.rest[i] = 120 THEN Wild ELSE Bad)
      ELSE LET b == ScanInt(From(a.rest, 2))
           IN  IF b.k # "ok" THEN b
               ELSE IF Len(b.rest) > 0 /\ IsDigit(b.rest[1]) THEN Wild
               ELSE Ok(<<a.v, b.v>>, b.rest)

\* two three-character numbers
ScanBG(t) ==
  IF Len(t) >= 6 /\ ScanInt(SubSeq(t, 1, 3)).k = "ok" /\ ScanInt(SubSeq(t, 1, 3)).rest = <<>>
     /\ ScanInt(SubSeq(t, 4, 6)).k = "ok" /\ ScanInt(SubSeq(t, 4, 6)).rest = <<>>
     /\ (Len(t) = 6 \/ ~IsDigit(t[7]))
  THEN Ok(<<ScanInt(SubSeq(t, 1, 3)).v, ScanInt(SubSeq(t, 4, 6)).v>>, From(t, 7))
  ELSE IF \A i \in 1..Len(t) : t[i] = Blank \/ t[i] \in 97..122 THEN Bad ELSE Wild

\* number of levels in two characters, then the levels in five each
ScanLV(t) ==
  IF ~IsAscii(t) THEN Wild
  ELSE IF Len(t) < 2 THEN Bad
  ELSE LET c == Alone(ScanInt(SubSeq(t, 1, 2)))
       IN  IF c.k # "ok" THEN c
           ELSE IF Len(t) # 5 * c.v + 2 THEN Bad
           ELSE LET L(i) == ScanLevel(SubSeq(t, 5 * i - 2, 5 * i + 2))
                IN  CASE \E i \in 1..c.v : L(i).k = "bad"  -> Bad
                      [] \E i \in 1..c.v : L(i).k = "wild" -> Wild
                      [] OTHER -> Ok([i \in 1..c.v |-> L(i).v], <<>>)

----------------------------------------------------------- (* the header *)
Failed(kind) == [k |-> kind]

\* the label proper: two bytes, as string for the catalogue
Label(h) == Str(SubSeq(h, 1, 2))

\* letters beyond ASCII are only defined in fields without influence, and only
\* such (U+0080..U+00BF, lower-case U+00DF..U+00FF) that cannot start a field
Pair(a, b) == (a = 194 /\ b \in 128..191) \/ (a = 195 /\ b \in 159..191)
Latin(h) ==
  /\ \A i \in 1..17 : h[i] < 128
  /\ \A i \in 18..Len(h) :
       h[i] < 128 \/ (i < Len(h) /\ Pair(h[i], h[i + 1])) \/ Pair(h[i - 1], h[i])

ParseFields(h, len) ==
  LET fs    == Fields(h)
      label == Label(h)
      unit  == UnitOf(label)
      by    == OptInt(fs, T("BY"), ScanInt)
      cap   == CaptureTime(SubSeq(h, 3, 8), SubSeq(h, 14, 17))
      vv    == OptInt(fs, T("VV"), ScanMinutes)
      int   == OptInt(fs, T("INT"), ScanMinutes)
      gp    == OptInt(fs, T("GP"), ScanGP)
      bg    == OptInt(fs, T("BG"), ScanBG)
      pe    == OptInt(fs, T("E"), ScanInt)
      lv    == OptInt(fs, T("LV"), ScanLV)
      vs    == OptInt(fs, T("VS"), ScanInt)
      dim   == IF gp.k # "none" THEN gp ELSE bg
      local == dim.k = "none" /\ label \in Local
      used  == <<by, cap, vv, int, dim, pe, lv, vs>>
  IN
  CASE ~Latin(h)                                        -> Failed("wild")
    [] by.k = "none" \/ (dim.k = "none" /\ ~local)     -> Failed("bad")
    [] \E i \in 1..Len(used) : used[i].k = "bad"        -> Failed("bad")
    [] \E i \in 1..Len(used) : used[i].k = "wild"       -> Failed("wild")
    [] pe.v > 34 \/ pe.v < -36                          -> Failed("wild")
    \* BG does not count next to GP; whether an unreadable one is reported is left open
    [] gp.k # "none" /\ bg.k \notin {"none", "ok"}       -> Failed("wild")
    [] OTHER ->
      LET size == IF local THEN LocalSize(label)
                  ELSE [px |-> dim.v[2], py |-> dim.v[1], dx |-> dim.v[2], dy |-> dim.v[1], res |-> 0]
          dl   == by.v - len
          lvd  == lv.k # "none"
          n    == size.px * size.py
          fits == size.px \in 1..MaxDimension /\ size.py \in 1..MaxDimension
          enc  == IF lvd THEN "run"
                  ELSE IF dl = 2 * n THEN "two"
                  ELSE IF dl = n THEN "one" ELSE "none"
      IN  IF ~fits THEN Failed("bad")
          ELSE IF enc = "none" THEN Failed("bad")
          ELSE [k |-> "ok",
                product |-> SubSeq(h, 1, 2), unit |-> unit,
                cap |-> cap.v, fc |-> cap.v + vv.v,
                int |-> IF label \in TenMinuteIntervals THEN 10 * int.v ELSE int.v,
                px |-> size.px, py |-> size.py, dx |-> size.dx, dy |-> size.dy,
                res |-> size.res,
                fmt |-> vs.v, enc |-> enc,
                levels |-> IF lvd THEN lv.v ELSE <<>>,
                scale |-> Scale(unit, pe.v, lvd),
                proj |-> Method(size.dx, size.dy, vs.v)]

\* h: the text before ETX
ParseHeader(h) ==
  IF Len(h) + 1 < 22 THEN Failed("bad") ELSE ParseFields(h, Len(h) + 1)

------------------------------------------------------------- (* rendering *)
(* An abstract header is a label, the two date texts, the station number   *)
(* and a sequence of fields; each field is a record [key, text].  The BY   *)
(* field is rendered with the total length of header and data section.     *)
(***************************************************************************)
FieldText(f) == f.key \o f.text

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* fields before and after BY, which is 7 characters wide
Render(label, ddhhmm, wmo, mmyy, pre, post, bodyLen) ==
  LET a   == label \o ddhhmm \o wmo \o mmyy \o Concat([i \in 1..Len(pre) |-> FieldText(pre[i])])
      b   == Concat([i \in 1..Len(post) |-> FieldText(post[i])])
      len == Len(a) + 2 + 7 + Len(b) + 1
  IN  a \o T("BY") \o I(len + bodyLen, 7) \o b \o <<ETX>>
=============================================================================

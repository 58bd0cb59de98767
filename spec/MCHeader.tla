------------------------------ MODULE MCHeader ------------------------------
(***************************************************************************)
(* Headers composed field by field.  What a header means is known from the *)
(* choices made (Meaning); the property says that reading the rendered     *)
(* text gives exactly that, whatever the order of the fields, wherever the *)
(* length field stands, however numbers are padded and whichever unknown   *)
(* fields lie in between.  Every composed header is printed as a scenario. *)
(***************************************************************************)
EXTENDS Frames, TLC, Json

CONSTANTS Vocab, MaxFields, Labels, Emitting

VARIABLES label, fields, by, closed
vars == <<label, fields, by, closed>>

\* an entry of the vocabulary: the field and what it contributes
V(key, text, name, val) == [f |-> F(key, T(text)), name |-> name, val |-> val]

Vocabulary == [
  gp1  |-> V("GP", "   2x   3", "dim", <<2, 3>>),
  gp2  |-> V("GP", "2x3", "dim", <<2, 3>>),
  gp3  |-> V("GP", "0003x0002", "dim", <<3, 2>>),
  bg1  |-> V("BG", "002003", "bdim", <<2, 3>>),
  bg2  |-> V("BG", "  3  2", "bdim", <<3, 2>>),
  vs1  |-> V("VS", " 3", "fmt", 3),
  vs2  |-> V("VS", "05", "fmt", 5),
  int1 |-> V("INT", "   5", "int", 5),
  int2 |-> V("INT", "1440", "int", 1440),
  vv1  |-> V("VV", " 005", "fc", 5),
  vv2  |-> V("VV", "120", "fc", 120),
  e1   |-> V("E", "-01", "prec", -1),
  e2   |-> V("E", "+02", "prec", 2),
  lv   |-> V("LV", " 2  1.0-31.5", "lev", <<10000, -315000>>),
  pr   |-> V("PR", " ", "", 0),
  sw   |-> V("SW", "   2.13.1", "", 0),
  mf   |-> V("MF", " 00000002", "", 0),
  ms   |-> V("MS", " 12<boo,hnr,umd>", "", 0),
  long |-> [f |-> F("MS", T("5002<") \o [i \in 1..5000 |-> IF i % 4 = 0 THEN 44 ELSE 97 + (i % 23)] \o T(">")), name |-> "", val |-> 0],
  huge |-> [f |-> F("MT", T("<") \o [i \in 1..66000 |-> 97 + (i % 23)] \o T(">")), name |-> "", val |-> 0],
  q    |-> V("Q", "7", "", 0),
  vvx  |-> V("VVX", " 99", "", 0),
  in   |-> V("IN", "12", "", 0),
  gpx  |-> V("XGP", " 9x 9", "", 0),
  bad1 |-> V("INT", " ", "bad", 0),
  bad2 |-> V("VS", "x", "bad", 0),
  end1 |-> V("MF", "", "", 0),
  end2 |-> V("VV", "", "bad", 0),
  end3 |-> V("INT", "", "bad", 0) ]

Entry(c) == Vocabulary[c]

Init == label \in Labels /\ fields = <<>> /\ by = 0 /\ closed = FALSE

Keys == {Entry(fields[i]).f.key : i \in 1..Len(fields)}
Fits(c) == /\ Entry(c).f.key \notin Keys
           /\ fields # <<>> => Entry(fields[Len(fields)]).f.text # <<>>

AddField(c) == /\ ~closed /\ Len(fields) < MaxFields /\ Fits(c)
               /\ fields' = Append(fields, c) /\ UNCHANGED <<label, by, closed>>

\* the length field goes after the b-th field; a field without text comes last
Close(b) == /\ ~closed /\ closed' = TRUE /\ by' = b /\ UNCHANGED <<label, fields>>
            /\ b = Len(fields) /\ fields # <<>> => Entry(fields[Len(fields)]).f.text # <<>>

Next == (\E c \in Vocab : AddField(c)) \/ (\E b \in 0..Len(fields) : Close(b))
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* what was chosen *)
Chosen(name) == {i \in 1..Len(fields) : Entry(fields[i]).name = name}
Value(name, default) == IF Chosen(name) = {} THEN default
                        ELSE Entry(fields[CHOOSE i \in Chosen(name) : TRUE]).val
HasLevels == Chosen("lev") # {}
\* GP goes before BG
Dim(default) == IF Chosen("dim") # {} THEN Value("dim", default) ELSE Value("bdim", default)

oneBody == <<0, 3, 249, 250, 10, 255>>
runBody(dim) == IF dim[1] = 2 THEN <<40, 17, 17, 18, 10, 41, 16, 18, 10>> ELSE <<40, 17, 17, 10, 41, 16, 33, 10, 10>>
Body == IF HasLevels THEN runBody(Dim(<<2, 3>>)) ELSE oneBody

PreBy  == [i \in 1..by |-> Entry(fields[i]).f]
PostBy == [i \in 1..(Len(fields) - by) |-> Entry(fields[by + i]).f]
File   == Render(T(label), Date, Wmo, MonthYear, PreBy, PostBy, Len(Body)) \o Body
TextOf(f) == SubSeq(f, 1, Len(f) - Len(Body) - 1)

\* 26 June 2016, 21:15
Capture == Minutes(2016, 6, 26, 21, 15)

Meaning ==
  IF Chosen("bad") # {} \/ Chosen("dim") \cup Chosen("bdim") = {} THEN Failed("bad")
  ELSE LET dim == Dim(0)
       IN  [k |-> "ok", product |-> T(label), unit |-> UnitOf(label),
            cap |-> Capture, fc |-> Capture + Value("fc", 0),
            int |-> IF label \in TenMinuteIntervals THEN 10 * Value("int", 0) ELSE Value("int", 0),
            px |-> dim[2], py |-> dim[1], dx |-> dim[2], dy |-> dim[1], res |-> 0,
            fmt |-> Value("fmt", 0), enc |-> IF HasLevels THEN "run" ELSE "one",
            levels |-> Value("lev", <<>>),
            scale |-> Scale(UnitOf(label), Value("prec", 0), HasLevels),
            proj |-> "none"]

\* C08
ReadsAsMeant == closed => ParseHeader(TextOf(File)) = Meaning

(* rows for the scenario *)
RECURSIVE Rows(_, _, _)
Rows(h, rest, rs) ==
  IF Len(rs) = h.py THEN rs
  ELSE LET e == IF h.enc = "run" THEN SelectInSeq(rest, LAMBDA b : b = LF) ELSE RowBytes(h.enc, h.px)
       IN  Rows(h, From(rest, e + 1),
                LET r == DecodeRow(h.enc, SubSeq(rest, 1, IF h.enc = "run" THEN e - 1 ELSE e), h.px, h.levels)
                IN  IF r.ok THEN Append(rs, r.cells) ELSE Assert(FALSE, "the body must be well-formed"))

Emit == closed /\ Emitting =>
  LET m == Meaning
      plain == IF m.k = "ok" THEN Plain(m.enc, Rows(m, Body, <<>>)) ELSE <<>>
  IN  PrintT("SCEN " \o ToJson([
    name |-> label, file |-> File, calls |-> <<Len(File), 0>>,
    verdict |-> CASE m.k # "ok" -> "err" [] m.unit = "unknown" -> "unit" [] OTHER -> "ok",
    hdr |-> m, plain |-> plain, layers |-> IF m.k = "ok" THEN <<plain>> ELSE <<>>]))
=============================================================================

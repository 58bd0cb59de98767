---------------------------- MODULE DecoderProof ----------------------------
(***************************************************************************)
(* Parses of files of any size, delivered in any portions by sources that  *)
(* may fail anywhere, proved with TLAPS.  The model checker compares the   *)
(* same with the parse of the whole file (ChunkIndependent), for bounded   *)
(* files; what is assumed of the recursive operators is checked there too. *)
(***************************************************************************)
EXTENDS Decoder, TLAPS

ASSUME FoundWithin == \A f, b, n, i : n \in Nat /\ i \in Nat => Find(f, b, i, n) \in {0} \cup (i..n)
ASSUME HeaderShape == \A t : ParseHeader(t).k = "ok" =>
  /\ ParseHeader(t).px \in Nat /\ ParseHeader(t).py \in Nat
  /\ ParseHeader(t).enc \in {"one", "two", "run"}
ASSUME RunShape == \A bytes, width, levels :
  width \in Nat => LET s == RunRow(bytes, width, levels) IN s.row = [x \in 1..width |-> s.row[x]]
ASSUME Files == \A f \in Inputs : Len(FileOf(f)) \in Nat

Inv ==
  /\ k \in Inputs
  /\ sent \in 0..Len(File) /\ pos \in 0..sent
  /\ src \in {"open", "ended", "broken"} /\ pc \in {"header", "rows", "done"}
  /\ src = "ended" => sent = Len(File)
  /\ verdict \in {"none", "ok", "unit", "err", "wild"}
  /\ (pc = "done") = (verdict # "none")
  /\ rows = [r \in 1..Len(rows) |-> rows[r]] /\ Len(rows) \in Nat
  /\ pc = "header" => rows = <<>> /\ pos = 0
  /\ (pc = "rows" \/ Success(verdict)) =>
       /\ hdr.k = "ok" /\ hdr.px \in Nat /\ hdr.py \in Nat /\ hdr.enc \in {"one", "two", "run"}
       /\ Len(rows) <= hdr.py
       /\ \A r \in 1..Len(rows) : rows[r] = [x \in 1..hdr.px |-> rows[r][x]]
  /\ Success(verdict) => Len(rows) = hdr.py /\ (verdict = "unit") = (hdr.unit = "unknown")

Complete == Success(verdict) =>
  /\ hdr.k = "ok" /\ Len(rows) = hdr.py /\ pos <= sent
  /\ \A r \in 1..hdr.py : Len(rows[r]) = hdr.px

THEOREM Begins == Init => Inv
  BY Files DEF Init, DInit, Inv, File, Success

\* rows have their width
LEMMA RowWidth ==
  ASSUME NEW enc \in {"one", "two", "run"}, NEW bytes, NEW width \in Nat, NEW levels
  PROVE  LET c == DecodeRow(enc, bytes, width, levels).cells IN c = [x \in 1..width |-> c[x]]
<1>1. CASE enc = "one"
  BY <1>1 DEF DecodeRow
<1>2. CASE enc = "two"
  BY <1>2 DEF DecodeRow
<1>3. CASE enc = "run"
  BY <1>3, RunShape DEF DecodeRow
<1> QED
  BY <1>1, <1>2, <1>3

LEMMA FindsOn ==
  ASSUME Inv
  PROVE  HeaderEnd \in 0..sent
  BY FoundWithin, Files DEF HeaderEnd, Inv, File

LEMMA RowEnds ==
  ASSUME Inv, pc = "rows", RowEnd # 0
  PROVE  RowEnd \in pos..sent
<1> sent \in Nat /\ pos \in Nat /\ hdr.px \in Nat /\ hdr.enc \in {"one", "two", "run"}
  BY Files DEF Inv, File
<1>1. CASE hdr.enc = "run"
  <2>1. Find(File, LF, pos + 1, sent) \in {0} \cup ((pos + 1)..sent)
    BY FoundWithin
  <2> QED
    BY <1>1, <2>1 DEF RowEnd, RowEndOf
<1>2. CASE hdr.enc # "run"
  <2> RowBytes(hdr.enc, hdr.px) \in Nat
    BY DEF RowBytes
  <2> QED
    BY <1>2 DEF RowEnd, RowEndOf
<1> QED
  BY <1>1, <1>2

THEOREM GoesOn == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> Len(File) \in Nat
  BY Files DEF Inv, File
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, decoder, Inv, File, Success
<1>2. CASE End \/ Break
  BY <1>2 DEF End, Break, vars, decoder, Inv, File, Success
<1>3. ASSUME NEW n \in 1..(Len(File) - sent), Deliver(n) PROVE Inv'
  BY <1>3 DEF Deliver, vars, decoder, Inv, File, Success
<1>4. CASE TakeHeader
  <2> DEFINE h == ParseHeader(SubSeq(File, 1, HeaderEnd - 1))
  <2>0. HeaderEnd \in 0..sent
    BY FindsOn
  <2>1. CASE h.k = "ok"
    <3>1. h.px \in Nat /\ h.py \in Nat /\ h.enc \in {"one", "two", "run"}
      BY <2>1, HeaderShape
    <3>2. hdr' = h /\ pc' = "rows" /\ verdict' = verdict /\ pos' = HeaderEnd /\ k' = k /\ sent' = sent /\ src' = src /\ rows' = rows
      BY <1>4, <2>1 DEF TakeHeader
    <3> HIDE DEF h
    <3>3. rows = <<>> /\ verdict = "none"
      BY <1>4 DEF TakeHeader, Inv
    <3> QED
      BY <2>0, <2>1, <3>1, <3>2, <3>3 DEF Inv, File, Success
  <2>2. CASE h.k # "ok"
    <3>1. pc' = "done" /\ verdict' \in {"err", "wild"} /\ pos' = HeaderEnd /\ k' = k /\ sent' = sent /\ src' = src /\ rows' = rows
      BY <1>4, <2>2 DEF TakeHeader, Fail
    <3> QED
      BY <2>0, <3>1 DEF Inv, File, Success
  <2> QED
    BY <2>1, <2>2
<1>5. CASE TakeRow
  <2> DEFINE text == SubSeq(File, pos + 1, IF hdr.enc = "run" THEN RowEnd - 1 ELSE RowEnd)
             r    == DecodeRow(hdr.enc, text, hdr.px, hdr.levels)
  <2>0. pc = "rows" /\ Len(rows) < hdr.py /\ RowEnd # 0 /\ verdict = "none"
    BY <1>5 DEF TakeRow, Inv
  <2>1. RowEnd \in pos..sent
    BY <2>0, RowEnds
  <2>2. r.cells = [x \in 1..hdr.px |-> r.cells[x]]
    BY <2>0, RowWidth DEF Inv
  <2>3. CASE r.ok
    <3>1. rows' = Append(rows, r.cells) /\ pc' = pc /\ verdict' = verdict /\ pos' = RowEnd /\ k' = k /\ sent' = sent /\ src' = src /\ hdr' = hdr
      BY <1>5, <2>3 DEF TakeRow
    <3> HIDE DEF r
    <3> DEFINE c == r.cells
    <3>2. rows' = [q \in 1..(Len(rows) + 1) |-> IF q <= Len(rows) THEN rows[q] ELSE c] /\ Len(rows') = Len(rows) + 1
      <4> DEFINE A == {rows[q] : q \in 1..Len(rows)} \cup {c}  l == Len(rows)
      <4>1. l \in Nat /\ rows \in [1..l -> A] /\ c \in A
        BY DEF Inv
      <4> HIDE DEF A, c
      <4>2. rows \in Seq(A)
        BY <4>1
      <4> QED
        BY <3>1, <4>1, <4>2 DEF c
    <3> HIDE DEF c
    <3>3. rows' = [q \in 1..Len(rows') |-> rows'[q]] /\ Len(rows') \in Nat
      BY <3>2 DEF Inv
    <3>4. Len(rows') <= hdr.py
      BY <2>0, <3>2 DEF Inv
    <3>5. \A q \in 1..Len(rows') : rows'[q] = [x \in 1..hdr.px |-> rows'[q][x]]
      BY <2>0, <2>2, <3>2 DEF Inv, c
    <3> QED
      <4> hdr' = hdr /\ hdr.k = "ok" /\ hdr.px \in Nat /\ hdr.py \in Nat /\ hdr.enc \in {"one", "two", "run"}
        BY <2>0, <3>1 DEF Inv
      <4> pc' = "rows" /\ verdict' = "none"
        BY <2>0, <3>1
      <4> k' \in Inputs /\ sent' \in 0..Len(FileOf(k')) /\ pos' \in 0..sent' /\ src' \in {"open", "ended", "broken"}
          /\ (src' = "ended" => sent' = Len(FileOf(k')))
        BY <2>1, <3>1 DEF Inv, File
      <4> HIDE DEF r, text
      <4> QED
        BY <3>3, <3>4, <3>5 DEF Inv, File, Success
  <2>4. CASE ~r.ok
    <3>1. pc' = "done" /\ verdict' = "err" /\ pos' = RowEnd /\ k' = k /\ sent' = sent /\ src' = src /\ rows' = rows
      BY <1>5, <2>4 DEF TakeRow, Fail
    <3> QED
      BY <2>1, <3>1 DEF Inv, File, Success
  <2> QED
    BY <2>3, <2>4
<1>6. CASE Finish
  BY <1>6 DEF Finish, Inv, File, Success
<1>7. CASE Starve
  BY <1>7 DEF Starve, Fail, Inv, File, Success
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next, Step

THEOREM Always == Spec => []Inv
  BY Begins, GoesOn, PTL DEF Spec

\* C04: a success has the complete header and every row
THEOREM NothingMissingEver == Spec => []Complete
<1>1. Inv => Complete
  BY DEF Inv, Complete, Success
<1> QED
  BY <1>1, Always, PTL

\* C05, C06: the first verdict stands, and what was decoded with it, whatever the source does afterwards
THEOREM VerdictStands == Spec => [][pc = "done" => UNCHANGED <<pc, verdict, rows, hdr, pos>>]_vars
<1>1. [Next]_vars => [pc = "done" => UNCHANGED <<pc, verdict, rows, hdr, pos>>]_vars
  BY DEF Next, Step, TakeHeader, TakeRow, Finish, Starve, End, Break, Deliver, vars, decoder
<1> QED
  BY <1>1, PTL DEF Spec

\* C06: the decoder never reaches beyond what was delivered, and nothing is given back
THEOREM Forwards == Spec => [][pos' >= pos /\ sent' >= sent /\ pos' <= sent']_vars
<1>1. Inv /\ [Next]_vars => [pos' >= pos /\ sent' >= sent /\ pos' <= sent']_vars
  <2> SUFFICES ASSUME Inv, Inv', [Next]_vars PROVE UNCHANGED vars \/ (pos' >= pos /\ sent' >= sent /\ pos' <= sent')
    BY GoesOn
  <2> sent \in Nat /\ pos \in Nat /\ pos <= sent /\ sent' \in Nat /\ pos' \in Nat /\ pos' <= sent'
    BY Files DEF Inv, File
  <2>1. CASE TakeRow
    <3>1. pc = "rows" /\ RowEnd # 0 /\ pos' = RowEnd /\ sent' = sent
      BY <2>1 DEF TakeRow
    <3> QED
      BY <3>1, RowEnds
  <2>2. CASE TakeHeader
    BY <2>2 DEF TakeHeader, Inv
  <2>3. CASE Finish \/ Starve \/ End \/ Break
    BY <2>3 DEF Finish, Starve, End, Break, decoder
  <2>4. ASSUME NEW n \in 1..(Len(File) - sent), Deliver(n) PROVE pos' >= pos /\ sent' >= sent
    BY <2>4, Files DEF Deliver, decoder, Inv, File
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4 DEF Next, Step
<1> QED
  BY <1>1, Always, PTL DEF Spec
=============================================================================

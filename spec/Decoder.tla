------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* One parse of a composite: a source that delivers the bytes of a file in *)
(* arbitrary portions, ends, or fails, and a decoder that consumes them.   *)
(*                                                                         *)
(* Actions of the source (calls of the reader, answered by it):            *)
(*   Deliver(n)   the next n bytes become available                        *)
(*   End          the file is exhausted: end of input                      *)
(*   Break        the source fails, wherever it is                         *)
(* Actions of the decoder:                                                 *)
(*   TakeHeader, TakeRow, Finish, Starve                                   *)
(***************************************************************************)
EXTENDS Parse

CONSTANTS Inputs,        \* names of the files
          FileOf(_)      \* their bytes

VARIABLES k,             \* the file being parsed
          sent,          \* number of bytes delivered
          src,           \* "open", "ended", "broken"
          pc,            \* "header", "rows", "done"
          pos,           \* number of bytes consumed
          hdr,           \* the parsed header
          rows,          \* decoded rows in the order of transmission
          verdict        \* "none", "ok", "unit", "err", "wild"

vars == <<k, sent, src, pc, pos, hdr, rows, verdict>>
decoder == <<pc, pos, hdr, rows, verdict>>

File   == FileOf(k)

DInit(f) == /\ k = f /\ sent = 0 /\ src = "open" /\ pc = "header" /\ pos = 0
            /\ hdr = NoHeader /\ rows = <<>> /\ verdict = "none"

Init == \E f \in Inputs : DInit(f)

(* the source *)
Deliver(n) == /\ src = "open" /\ n >= 0 /\ sent + n <= Len(File)
              /\ sent' = sent + n
              /\ UNCHANGED <<k, src, decoder>>

End   == /\ src = "open" /\ sent = Len(File) /\ src' = "ended"
         /\ UNCHANGED <<k, sent, decoder>>

Break == /\ src = "open" /\ src' = "broken" /\ UNCHANGED <<k, sent, decoder>>

\* a source that is asked again behind its end or failure may deliver more;
\* nothing of it counts: a stuttering step
Late  == src # "open" /\ UNCHANGED vars

HeaderEnd == Find(File, ETX, 1, sent)

\* end of the next row, 0 if it is not complete yet
RowEnd == RowEndOf(File, sent, hdr, pos)

(* the decoder *)
Fail(v) == pc' = "done" /\ verdict' = v

TakeHeader ==
  /\ pc = "header" /\ HeaderEnd # 0
  /\ LET h == ParseHeader(SubSeq(File, 1, HeaderEnd - 1))
     IN  /\ pos' = HeaderEnd
         /\ IF h.k = "ok" THEN hdr' = h /\ pc' = "rows" /\ UNCHANGED verdict
            ELSE Fail(IF h.k = "bad" THEN "err" ELSE "wild") /\ UNCHANGED hdr
  /\ UNCHANGED <<k, sent, src, rows>>

TakeRow ==
  /\ pc = "rows" /\ Len(rows) < hdr.py /\ RowEnd # 0
  /\ LET text == SubSeq(File, pos + 1, IF hdr.enc = "run" THEN RowEnd - 1 ELSE RowEnd)
         r    == DecodeRow(hdr.enc, text, hdr.px, hdr.levels)
     IN  /\ pos' = RowEnd
         /\ IF r.ok THEN rows' = Append(rows, r.cells) /\ UNCHANGED <<pc, verdict>>
            ELSE Fail("err") /\ UNCHANGED rows
  /\ UNCHANGED <<k, sent, src, hdr>>

Finish ==
  /\ pc = "rows" /\ Len(rows) = hdr.py
  /\ pc' = "done"
  /\ verdict' = IF hdr.unit = "unknown" THEN "unit" ELSE "ok"
  /\ UNCHANGED <<k, sent, src, pos, hdr, rows>>

\* more bytes are needed, but there will be none
Starve ==
  /\ src # "open"
  /\ \/ pc = "header" /\ HeaderEnd = 0
     \/ pc = "rows" /\ Len(rows) < hdr.py /\ RowEnd = 0
  /\ Fail("err")
  /\ UNCHANGED <<k, sent, src, pos, hdr, rows>>

Step == TakeHeader \/ TakeRow \/ Finish \/ Starve

Next == Step \/ End \/ Break \/ \E n \in 1..(Len(File) - sent) : Deliver(n)

Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
             /\ WF_vars(End \/ \E n \in 1..(Len(File) - sent) : Deliver(n))

--------------------------------------------------------------------------
(* The composite handed out *)
Composite == [plain |-> Plain(hdr.enc, rows),
              layers |-> Layers(Plain(hdr.enc, rows), hdr.dy)]

--------------------------------------------------------------------------
(* Properties *)
TypeOK == /\ k \in Inputs /\ sent \in 0..Len(File) /\ pos \in 0..sent
          /\ src \in {"open", "ended", "broken"} /\ pc \in {"header", "rows", "done"}
          /\ verdict \in {"none", "ok", "unit", "err", "wild"}
          /\ (pc = "done") = (verdict # "none")

\* C04: no success without the complete header and every row
NothingMissing == Success(verdict) =>
  /\ hdr.k = "ok" /\ Len(rows) = hdr.py
  /\ \A r \in 1..hdr.py : Len(rows[r]) = hdr.px
  /\ (hdr.enc # "run" => pos = HeaderEnd + hdr.py * RowBytes(hdr.enc, hdr.px))

\* C06: the verdict and the cells are those of the bytes, however delivered
ChunkIndependent == pc = "done" =>
  LET s == Solo(File, sent) IN verdict = s.v /\ (Success(verdict) => rows = s.rows /\ hdr = s.hdr)

\* C06: from the delivery of the last byte of the frame on, success is certain
FrameEnd == LET s == Solo(File, Len(File)) IN IF Success(s.v) THEN s.pos ELSE 0
FrameSuffices == FrameEnd # 0 /\ sent >= FrameEnd => verdict \in {"none", "ok", "unit"}
FrameNeeded   == Success(verdict) => sent >= FrameEnd /\ FrameEnd # 0

\* C05: every parse ends
Terminates == <>(pc = "done")

\* C04: a source that stops before the end of the frame leads to an error
ShortIsError == [](src # "open" /\ (FrameEnd = 0 \/ sent < FrameEnd) => ~Success(verdict))

\* C01-C03, C09, C10: shape of the composite
Shape == Success(verdict) =>
  LET c == Composite
  IN  /\ Len(c.plain) = hdr.py
      /\ \A y \in 1..hdr.py : Len(c.plain[y]) = hdr.px
      /\ \A z \in 1..Len(c.layers) : Len(c.layers[z]) = hdr.dy
      /\ hdr.dx = hdr.px
      /\ IF hdr.py % hdr.dy = 0
         THEN Concat(c.layers) = c.plain
         ELSE Len(c.layers) = 1 /\ c.layers[1] = From(c.plain, hdr.py - hdr.dy + 1)

\* C01, C02: rows are transmitted bottom up, C03: top down
FirstRow == Success(verdict) =>
  Composite.plain[IF hdr.enc = "run" THEN 1 ELSE hdr.py] = rows[1]

\* C12
UnknownUnit == Success(verdict) => (verdict = "unit") = (Label(File) \notin Known)
=============================================================================

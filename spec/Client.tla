------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* A program using the whole library: it parses files (whole, cut off, or  *)
(* from a failing source), reads archives, makes dummies, looks at points, *)
(* draws layers, projects coordinates and overwrites cells of composites   *)
(* it holds - in any order and as long as it likes.  Every answer is given *)
(* by the operands of the call alone and, for a composite whose cells the  *)
(* program overwrote, by what it wrote.                                    *)
(*                                                                         *)
(* The heap holds the composites handed out, the history the calls with    *)
(* their answers.  turn chooses the kind of the next call, so that random  *)
(* histories contain all kinds alike.                                      *)
(***************************************************************************)
EXTENDS Parse, Frames, TLC, Json

CONSTANTS Depth,         \* calls of a history
          Most,          \* composites held at a time
          Kinds,         \* kinds of calls
          Files,         \* names of files that are parsed
          AnyCut,        \* also cut off
          Emitting

one == <<0, 1, 249, 250, 251, 255>>
two == <<0, 0, 255, 15, 44, 65, 7, 32, 1, 112, 255, 143>>
run == <<7, 16, 33, 10>> \o <<7, 17, 18, 10>> \o <<10>>

\* neighbours that differ in one thing: unit, precision, level table, time,
\* interval, dimensions, layer height, version
TheFiles == [
  rx     |-> Frame("RX", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), VV(5)>>, one),
  rxTime |-> Render(T("RX"), T("272305"), T("10001"), T("0716"), <<>>, <<VS(3), E1, Prec(0), INT(15), GP(2, 3), VV(10)>>, 6) \o one,
  rw     |-> Frame("RW", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), VV(15)>>, one),
  rwFine |-> Frame("RW", <<VS(3), E1, Prec(-2), INT(5), GP(2, 3), VV(20)>>, one),
  qq     |-> Frame("QQ", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), VV(25)>>, one),
  w1     |-> Frame("W1", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), VV(30)>>, one),
  tall   |-> Frame("RX", <<VS(3), E1, Prec(0), INT(5), GP(3, 2), VV(35)>>, one),
  fx     |-> Frame("FX", <<VS(5), E1, Prec(-1), GP(3, 2), VV(40)>>, two),
  fxMore |-> Frame("FX", <<VS(5), E1, Prec(-1), GP(3, 2), VV(45)>>, two) \o <<3, 10, 80>>,
  fzPlus |-> Frame("FZ", <<VS(5), E1, Prec(1), GP(2, 3), VV(50)>>, two),
  pg     |-> Frame("PG", <<LV(<<10, -315>>), F("CS", T("0")), BG(3, 3), VV(55)>>, run),
  pgLv   |-> Frame("PG", <<LV(<<75, 245>>), F("CS", T("0")), BG(3, 3), VV(60)>>, run),
  pgOne  |-> Frame("PG", <<LV(<<-25>>), BG(3, 3), VV(65)>>, run),
  pgPlain|-> Frame("PG", <<BG(2, 3), VV(70)>>, one),
  bare   |-> Frame("RX", <<GP(2, 3)>>, one),
  short  |-> WithLength("RX", <<GP(2, 3)>>, SubSeq(one, 1, 5), 6),
  badOf  |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 15, 33, 10, 7, 10>>),
  badRun |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 17, 49, 10, 7, 10>>),
  noDim  |-> Frame("RX", <<VS(3)>>, one),
  mism   |-> Frame("RX", <<GP(2, 4)>>, one),
  noEtx  |-> T("RX262115100000616BY00081VS 3") ]

Names == DOMAIN TheFiles

Whole == TLCEval([f \in Names |-> Solo(TheFiles[f], Len(TheFiles[f]))])
Good  == {f \in Names : Whole[f].v = "ok"}
Units == {f \in Names : Whole[f].v = "unit"}

ASSUME Cardinality(Good) = 14 /\ Units = {"qq"} /\ \A f \in Names : Whole[f].v # "wild"

\* sources end or fail here
Cuts(f) == LET b == TheFiles[f]
               n == Len(b)
               e == Find(b, ETX, 1, n)
           IN  {10, e - 1, e, e + 3, n - 1, n} \cap (0..n)
Verdicts == TLCEval([f \in Names |-> [c \in Cuts(f) |-> Solo(TheFiles[f], c).v]])

\* archives of up to three members, with different forecast times
Archives == TLCEval(
  {<<>>} \cup {<<f>> : f \in Names}
  \cup {<<"rxTime", "rx">>, <<"rx", "rxTime">>, <<"rw", "rwFine", "rx">>, <<"pgLv", "pgOne", "pg">>, <<"fxMore", "w1", "fx">>, <<"pgPlain", "pg", "tall">>,
        <<"fzPlus", "fx", "rw">>, <<"rx", "qq">>, <<"qq", "rx", "rw">>, <<"rx", "badOf", "rw">>, <<"rw", "pg", "short">>, <<"noEtx", "rx">>, <<"bare", "rx", "w1">>})
ForecastOf(f) == Whole[f].hdr.fc
ArchiveOrder(fs) == SortSeq(fs, LAMBDA a, b : ForecastOf(a) < ForecastOf(b))

\* dummies and composites of one value only, of all grids and none
Sizes == {<<225, 225>>, <<115, 115>>, <<225, 275>>, <<275, 300>>, <<175, 187>>, <<350, 375>>, <<230, 230>>, <<275, 299>>, <<4, 6>>}
Versions == {2, 4, 5, 6}
Labels == {"RX", "RW", "PG", "PE", "W1", "QQ"}

VARIABLES heap, hist, turn
vars == <<heap, hist, turn>>

\* what a composite holds: cells of a file, nothing, or one value everywhere;
\* own = 0, or the number the program wrote into all cells
FromFile(f)            == [of |-> "file", file |-> f, label |-> "", version |-> 0, w |-> 0, h |-> 0, byte |-> 0, own |-> 0]
FromDummy(l, v, w, h)  == [of |-> "dummy", file |-> "", label |-> l, version |-> v, w |-> w, h |-> h, byte |-> 0, own |-> 0]
FromFlat(l, v, w, h, b) == [of |-> "flat", file |-> "", label |-> l, version |-> v, w |-> w, h |-> h, byte |-> b, own |-> 0]

DxOf(c) == IF c.of = "file" THEN Whole[c.file].hdr.dx ELSE c.w
DyOf(c) == IF c.of = "file" THEN Whole[c.file].hdr.dy ELSE c.h
LayersOf == TLCEval([f \in {g \in Names : Success(Whole[g].v)} |-> CompositeOf(Whole[f]).z])
DzOf(c) == CASE c.of = "file" -> Len(LayersOf[c.file]) [] c.of = "dummy" -> 0 [] OTHER -> 1
VersionOf(c) == IF c.of = "file" THEN Whole[c.file].hdr.fmt ELSE c.version

Inside(c, x, y, z) == x \in 0..(DxOf(c) - 1) /\ y \in 0..(DyOf(c) - 1) /\ z \in 0..(DzOf(c) - 1)

\* the cell and whether the program wrote it
CellAt(c, x, y, z) ==
  IF ~Inside(c, x, y, z) THEN [own |-> FALSE, cell |-> NA]
  ELSE IF c.own # 0 THEN [own |-> TRUE, cell |-> c.own]
  ELSE [own |-> FALSE, cell |-> IF c.of = "flat" THEN OneByte(c.byte)
                                ELSE PointAt(LayersOf[c.file], DxOf(c), DyOf(c), x, y, z)]

Answer(kind, a) == hist' = Append(hist, [kind |-> kind] @@ a)
Hand(cs) == heap' = heap \o cs
Room(n) == Len(heap) + n <= Most

Parse1 == turn = "parse" /\ Room(1) /\ \E f \in Files : \E c \in IF AnyCut THEN Cuts(f) ELSE {Len(TheFiles[f])} : \E how \in IF AnyCut THEN {"ends", "fails"} ELSE {"ends"} :
  /\ Answer("parse", [file |-> f, cut |-> c, how |-> how, verdict |-> Verdicts[f][c]])
  /\ Hand(IF Success(Verdicts[f][c]) THEN <<FromFile(f)>> ELSE <<>>)

\* several at the same time
Together == turn = "together" /\ Room(3) /\ \E f \in Good \cup Units : \E g \in {"rw", "fx", "pgLv", "pg"} : \E h \in {"badRun", "short", "rwFine", f} :
  /\ Answer("together", [files |-> <<f, g, h>>])
  /\ Hand(<<FromFile(f), FromFile(g)>> \o (IF Success(Whole[h].v) THEN <<FromFile(h)>> ELSE <<>>))

Archive == turn = "archive" /\ Room(3) /\ \E fs \in Archives :
  LET fine == \A i \in 1..Len(fs) : fs[i] \in Good
      order == IF fine THEN ArchiveOrder(fs) ELSE <<>>
  IN  /\ Answer("archive", [files |-> fs, ok |-> fine, order |-> order])
      /\ Hand([i \in 1..Len(order) |-> FromFile(order[i])])

Dummy == turn = "dummy" /\ Room(1) /\ \E l \in Labels, v \in Versions, s \in Sizes :
  /\ Answer("dummy", [label |-> l, version |-> v, w |-> s[1], h |-> s[2], proj |-> HasProjection(s[1], s[2], v)])
  /\ Hand(<<FromDummy(l, v, s[1], s[2])>>)

Flat == turn = "flat" /\ Room(1) /\ \E l \in {"RX", "RW", "QQ"}, v \in Versions, s \in Sizes, b \in {0, 77, 250} :
  LET u == UnitOf(l)
  IN  /\ Answer("flat", [label |-> l, version |-> v, w |-> s[1], h |-> s[2], byte |-> b, cell |-> OneByte(b), scale |-> Scale(u, 0, FALSE),
                         verdict |-> IF u = "unknown" THEN "unit" ELSE "ok", proj |-> HasProjection(s[1], s[2], v)])
      /\ Hand(<<FromFlat(l, v, s[1], s[2], b)>>)

Look == turn = "look" /\ \E i \in 1..Len(heap) : LET c == heap[i] IN
  \E x \in {-1, 0, 1, DxOf(c) - 1, DxOf(c)}, y \in {-1, 0, 1, DyOf(c) - 1, DyOf(c)}, z \in {-1, 0, 1} :
    Answer("look", [i |-> i, x |-> x, y |-> y, z |-> z] @@ CellAt(c, x, y, z)) /\ UNCHANGED heap

\* the picture has the colours of the layer's cells, or is blank
Draw == turn = "draw" /\ \E i \in 1..Len(heap) : \E z \in {-1, 0, 1} :
  Answer("draw", [i |-> i, z |-> z, blank |-> z \notin 0..(DzOf(heap[i]) - 1)]) /\ UNCHANGED heap

\* coordinates depend on grid, stored size and method only
Locate == turn = "locate" /\ \E i \in 1..Len(heap) :
  LET c == heap[i] IN Answer("locate", [i |-> i, w |-> DxOf(c), h |-> DyOf(c), method |-> Method(DxOf(c), DyOf(c), VersionOf(c))]) /\ UNCHANGED heap

\* the program uses the cells of a composite for something else
Scribble == turn = "scribble" /\ \E i \in 1..Len(heap) : heap[i].of # "dummy" /\ \E w \in {-7, 1234} :
  Answer("scribble", [i |-> i, value |-> w]) /\ heap' = [heap EXCEPT ![i].own = w]

\* looks at everything again
Review == turn = "review" /\ Answer("review", [n |-> Len(heap)]) /\ UNCHANGED heap

\* forgets everything
Forget == turn = "forget" /\ Answer("forget", [n |-> Len(heap)]) /\ heap' = <<>>

Init == heap = <<>> /\ hist = <<>> /\ turn = "choose"

Need(kd) == CASE kd \in {"parse", "dummy", "flat"} -> Room(1)
              [] kd \in {"together", "archive"}    -> Room(3)
              [] kd \in {"look", "draw", "locate", "review"} -> heap # <<>>
              [] kd = "scribble"                   -> \E i \in 1..Len(heap) : heap[i].of # "dummy"
              [] kd = "forget"                     -> Len(heap) > Most - 3
Choose == turn = "choose" /\ Len(hist) < Depth /\ turn' \in {kd \in Kinds : Need(kd)} /\ UNCHANGED <<heap, hist>>
Call == /\ turn' = "choose"
        /\ \/ Parse1 \/ Together \/ Archive \/ Dummy \/ Flat \/ Look \/ Draw \/ Locate \/ Scribble \/ Review \/ Forget
Finish == turn = "choose" /\ Len(hist) = Depth /\ turn' = "over" /\ UNCHANGED <<heap, hist>>
Next == Choose \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* C14: a composite changes by the program's own writing only *)
Isolated == [][turn # "forget" =>
  \A i \in 1..Len(heap) : heap'[i] = heap[i] \/ (turn = "scribble" /\ [heap'[i] EXCEPT !.own = 0] = [heap[i] EXCEPT !.own = 0] /\ hist'[Len(hist')].i = i)]_vars
(* C14: equal calls have equal answers *)
Functional == hist # <<>> => LET b == hist[Len(hist)] IN b.kind = "parse" => \A i \in 1..Len(hist) :
  LET a == hist[i] IN a.kind = "parse" /\ a.file = b.file /\ a.cut = b.cut => a.verdict = b.verdict
(* C04, C12, C13 *)
Sound == hist # <<>> => LET e == hist[Len(hist)] IN
  CASE e.kind = "parse"   -> (Success(e.verdict) => Success(Whole[e.file].v)) /\ (e.cut = Len(TheFiles[e.file]) => e.verdict = Whole[e.file].v)
    [] e.kind = "archive" -> /\ e.ok = (\A m \in 1..Len(e.files) : e.files[m] \in Good)
                             /\ e.ok => \A m \in 1..(Len(e.order) - 1) : ForecastOf(e.order[m]) < ForecastOf(e.order[m + 1])
                             /\ e.ok => Range(e.order) = Range(e.files)
    [] e.kind = "look"    -> e.own => e.cell \in {-7, 1234}
    [] e.kind = "locate"  -> (e.method = "ellipsoid") => GridOf(e.w, e.h) = "de1200"
    [] OTHER -> TRUE
Held == Len(heap) <= Most

\* the files of the histories, once
ASSUME Emitting =>
  \A f \in Names : LET s == Whole[f] IN
    PrintT("SCEN " \o ToJson([name |-> f, file |-> TheFiles[f], calls |-> <<>>, verdict |-> s.v, hdr |-> s.hdr,
      plain |-> IF Success(s.v) THEN CompositeOf(s).plain ELSE <<>>,
      layers |-> IF Success(s.v) THEN CompositeOf(s).z ELSE <<>>]))
Emit == Emitting /\ turn = "over" => PrintT("SCEN " \o ToJson([hist |-> hist]))
=============================================================================

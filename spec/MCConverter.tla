---------------------------- MODULE MCConverter ----------------------------
(***************************************************************************)
(* All calls of the program with small files, good and bad, and all kinds  *)
(* of outputs; every behaviour is printed with the picture expected.       *)
(***************************************************************************)
EXTENDS Converter, Frames, TLC, Json

oneBody == <<0, 1, 249, 250, 100, 77>>
twoBody == <<10, 0, 255, 15, 44, 65, 7, 32, 10, 112, 200, 131>>
runBody == <<7, 16, 33, 10>> \o <<7, 17, 18, 10>> \o <<10>>
Rain(label, prec, minutes) ==
  Frame(label, <<GP(4, 5), E1, Prec(prec), INT(minutes)>>, <<0, 1, 2, 5, 10, 20, 40, 60, 80, 99, 101, 120, 150, 199, 201, 230, 240, 249, 250, 33>>)

Files == TLCEval([
  dbz   |-> Frame("RX", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), MS("<boo>")>>, <<0, 66, 68, 250, 100, 249>>),
  dbz2  |-> Frame("FX", <<VS(3), E1, Prec(0), INT(5), GP(3, 2), VV(5)>>, twoBody),
  mm    |-> Frame("RW", <<GP(3, 2), E1, Prec(-1), VV(60)>>, oneBody),
  mm5   |-> Rain("RY", -1, 5),
  mm60  |-> Rain("RW", 0, 60),
  mm61  |-> Rain("SF", 0, 61),
  mm10  |-> Rain("SF", 0, 10079),
  mmW   |-> Rain("SF", 0, 10080),
  mmM   |-> Rain("SF", 1, 9999),
  w1    |-> Rain("W1", 0, 6),
  w2    |-> Rain("W2", 0, 7),
  w3    |-> Rain("W3", 1, 1008),
  w4    |-> Rain("W4", 0, 1007),
  km    |-> Frame("PE", <<GP(3, 2), E1, Prec(-1)>>, oneBody),
  km0   |-> Frame("PE", <<GP(3, 2), E1, Prec(0)>>, <<0, 1, 14, 15, 16, 250>>),
  mps   |-> Frame("PR", <<GP(3, 2), E1, Prec(-1)>>, twoBody),
  mps1  |-> Frame("PV", <<GP(2, 3), E1, Prec(0)>>, <<0, 1, 2, 30, 32, 250>>),
  level |-> Frame("PG", <<LV(<<10, -315>>), F("CS", T("0")), BG(3, 3)>>, runBody),
  levKm |-> Frame("PE", <<LV(<<10, 75>>), BG(3, 3)>>, runBody),
  levMps |-> Frame("PR", <<LV(<<15, -155>>), BG(3, 3)>>, runBody),
  trail |-> Frame("RX", <<GP(2, 3)>>, <<0, 66, 68, 250, 100, 249>>) \o <<3, 10, 80>>,
  unk   |-> Frame("QQ", <<GP(3, 2)>>, twoBody),
  short |-> WithLength("RX", <<GP(2, 3)>>, <<1, 2, 3, 4, 5>>, 6),
  badOf |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 15, 33, 10, 7, 10>>),
  badRn |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 17, 49, 10, 7, 10>>),
  noDim |-> Frame("RX", <<VS(3)>>, oneBody),
  mism  |-> Frame("RX", <<GP(2, 4)>>, oneBody),
  noEtx |-> SelectSeq(Frame("RX", <<GP(2, 3)>>, oneBody), LAMBDA b : b # 3),
  tiny  |-> T("RX262115") \o <<3>>,
  png   |-> <<137, 80, 78, 71, 13, 10, 26, 10, 0, 0>>,
  empty |-> <<>> ])

MCFile(n) == Files[n]
\* the input is a file, a link to it or a pipe
MCJobs == {j \in [args : {2}, by : {"file"}, input : DOMAIN Files \cup {"@missing", "@directory"}, output : {"fresh", "old", "nodir", "dir", "full", "self"}] :
             j.output = "self" => j.input \in DOMAIN Files}
          \cup [args : {3, 4}, by : {"file"}, input : {"dbz", "mm60", "short", "@missing"}, output : {"fresh", "old", "nodir"}]   \* more names than needed do not count
          \cup [args : {2}, by : {"link", "pipe"}, input : DOMAIN Files, output : {"fresh", "old"}]
          \cup [args : {0}, by : {"file"}, input : {"dbz"}, output : {"fresh"}]
          \cup [args : {1}, by : {"file"}, input : {"dbz", "short", "@missing"}, output : {"fresh"}]

Emit == exit # "running" =>
  PrintT("SCEN " \o ToJson([job |-> job, file |-> IF job.input \in DOMAIN Files THEN Files[job.input] ELSE <<>>,
    exit |-> exit, out |-> out, said |-> said, told |-> told, verdict |-> solo.v, picture |-> picture]))
\* a file can be its own output only if there is one
ASSUME \A n \in DOMAIN Files : Solo(Files[n], Len(Files[n])).v # "wild"
=============================================================================

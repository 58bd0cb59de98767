----------------------------- MODULE GenTables -----------------------------
(***************************************************************************)
(* Finite functions of the specification written out as tables: cell codes *)
(* and, for big frames, the order of rows.                                 *)
(***************************************************************************)
EXTENDS Codec, Catalog, FiniteSets, TLC, Json, IOUtils

Sorted(S) == CHOOSE s \in {SetToSeq(S)} : TRUE

Heights == {1, 2, 3, 4, 5, 16, 115, 200, 224, 225, 230, 256, 450, 460, 500, 512, 550, 600, 700, 900, 920, 1000, 1100, 1200, 1500, 2400, 3000, 9999}

RowTable == [key \in {e \o "/" \o ToString(h) : e \in {"one", "two", "run"}, h \in Heights} |->
               LET eh == CHOOSE p \in {"one", "two", "run"} \X Heights : p[1] \o "/" \o ToString(p[2]) = key
               IN  [r \in 1..eh[2] |-> PlainRow(eh[1], r, eh[2]) - 1]]

Letters == [i \in 1..26 |-> SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i)]
Marks   == [i \in 1..39 |-> SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789xg-", i, i)]
Labels  == {Letters[i] \o Marks[j] : i \in 1..26, j \in 1..39} \ (FieldNames \cup {"E" \o Marks[j] : j \in 27..39})

\* for every local product the plain rows (from 0) of each of its layers
Layout(label) == LET s == LocalSize(label)
                 IN  [px |-> s.px, py |-> s.py, dx |-> s.dx, dy |-> s.dy, res |-> s.res,
                      layers |-> Layers([y \in 1..s.py |-> y - 1], s.dy)]

ASSUME JsonSerialize(IOEnv.OUT,
  [dbz   |-> Sorted(Unit_dBZ), known |-> Sorted(Known), local |-> Sorted(Local),
   one   |-> [i \in 1..256 |-> OneByte(i - 1)],
   two   |-> [i \in 1..65536 |-> TwoByte((i - 1) % 256, (i - 1) \div 256)],
   rows  |-> RowTable,
   units |-> [l \in Labels |-> UnitOf(l)],
   minutes |-> [l \in Labels |-> IF l \in TenMinuteIntervals THEN 10 ELSE 1],
   layouts |-> [l \in Local |-> Layout(l)]])
=============================================================================

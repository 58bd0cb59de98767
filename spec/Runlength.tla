----------------------------- MODULE Runlength -----------------------------
(***************************************************************************)
(* The run-length row automaton of Codec as a state machine of its own:    *)
(* a row of some width is read byte by byte until it is ended.  The        *)
(* properties relate the automaton to a second, declarative reading of the *)
(* same bytes (offset = sum over the offset bytes, cell x is covered by    *)
(* the run whose interval contains it), and every ended row is printed as  *)
(* a scenario for the implementation.                                      *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, FiniteSets

CONSTANTS Widths, Alphabet(_), MaxLen(_), Table, Emitting

VARIABLES w, bytes, s, ended
vars == <<w, bytes, s, ended>>

Init == /\ w \in Widths /\ bytes = <<>> /\ s = RowStart(w) /\ ended = FALSE

Byte(b) == /\ ~ended /\ Len(bytes) < MaxLen(w) /\ s.st # "bad"
           /\ bytes' = Append(bytes, b) /\ s' = RowStep(s, b, Table) /\ UNCHANGED <<w, ended>>

EndRow == ~ended /\ ended' = TRUE /\ UNCHANGED <<w, bytes, s>>

Next == EndRow \/ \E b \in Alphabet(w) : Byte(b)
Spec == Init /\ [][Next]_vars

(* the declarative reading *)
Rest == SubSeq(bytes, 2, Len(bytes))
\* number of offset bytes: up to the first that is not 255
OffLen == LET stops == {i \in 1..Len(Rest) : Rest[i] # 255}
          IN  IF stops = {} THEN Len(Rest) ELSE CHOOSE i \in stops : \A j \in stops : i <= j
Offset == FoldLeft(LAMBDA a, i : a + Rest[i] - 16, 0, [i \in 1..OffLen |-> i])
Runs   == SubSeq(Rest, OffLen + 1, Len(Rest))
RunEnd(i)   == Offset + FoldLeft(LAMBDA a, j : a + Runs[j] \div 16, 0, [j \in 1..i |-> j])
RunBegin(i) == RunEnd(i) - Runs[i] \div 16
Malformed == \/ \E i \in 1..OffLen : Rest[i] < 16
             \/ \E i \in 1..Len(Runs) : Runs[i] \div 16 > 0 /\ RunEnd(i) > w
Covering(x) == {i \in 1..Len(Runs) : x > RunBegin(i) /\ x <= RunEnd(i)}
Cell(x) == IF Covering(x) = {} THEN NA
           ELSE LET sel == Runs[CHOOSE i \in Covering(x) : TRUE] % 16
                IN  IF sel = 0 \/ sel > Len(Table) THEN NA ELSE Table[sel]

Agree == /\ (s.st = "bad") = Malformed
         /\ s.st # "bad" => \A x \in 1..w : Cardinality(Covering(x)) <= 1 /\ s.row[x] = Cell(x)
RowLength == Len(s.row) = w
Monotone  == [][s'.at >= s.at]_vars
OnlyLevels == \A x \in 1..w : s.row[x] = NA \/ \E i \in 1..Len(Table) : Table[i] = s.row[x]

Emit == ended /\ Emitting =>
  PrintT("SCEN " \o ToJson([w |-> w, row |-> bytes, ok |-> s.st # "bad", cells |-> s.row]))
=============================================================================

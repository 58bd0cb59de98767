---------------------------- MODULE MCRunlength ----------------------------
(* Short rows over the byte values at which the automaton changes its mind. *)
EXTENDS Runlength
LevelTable == <<10, -315, 70>>
Small == {0, 13, 9, 15, 16, 17, 18, 32, 33, 36, 49, 64, 254, 255}
\* rows wider than one offset byte reaches
Wide  == {0, 11, 15, 16, 19, 34, 240, 254, 255}
QuickAlphabet(n) == IF n < 100 THEN Small ELSE Wide
QuickLen(n)      == IF n < 100 THEN 4 ELSE 3
DeepLen(n)       == IF n < 3 THEN 5 ELSE 4
=============================================================================

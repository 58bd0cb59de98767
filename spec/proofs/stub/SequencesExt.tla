--------------------------- MODULE SequencesExt ---------------------------
EXTENDS Sequences
ToSet(s) == {s[i] : i \in DOMAIN s}
FoldLeft(op(_, _), base, seq) == CHOOSE x : x = base
=============================================================================

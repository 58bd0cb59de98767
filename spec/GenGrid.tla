------------------------------ MODULE GenGrid ------------------------------
(***************************************************************************)
(* Every recognised size up to a limit with the projection method of every *)
(* version; facts about the recognition.                                   *)
(***************************************************************************)
EXTENDS Grid, Sequences, TLC, Json, IOUtils

CONSTANTS Limit, Sweep

Versions == -1..12

Table == {[dx |-> d[1], dy |-> d[2], grid |-> GridOf(d[1], d[2]),
           ref |-> RefSize(GridOf(d[1], d[2])),
           methods |-> [v \in 1..14 |-> Method(d[1], d[2], v - 2)]] : d \in Recognised(Limit)}

VARIABLES column, swept         \* the sweep goes over the columns
GInit == column \in 0..Sweep /\ swept = FALSE
GNext == ~swept /\ swept' = TRUE /\ UNCHANGED column
GSpec == GInit /\ [][GNext]_<<column, swept>>

\* a size is recognised exactly if it is one of the constructed ones
Complete == swept => \A dy \in 0..Sweep : (GridOf(column, dy) # "none") = (<<column, dy>> \in Recognised(Sweep))
\* no size belongs to two grids, and a recognised size has the proportions of its grid
Single == swept => \A dy \in 0..Sweep :
  /\ Cardinality({g \in Grids : Halved(column, dy) = Halved(RefSize(g)[1], RefSize(g)[2])}) <= 1
  /\ LET g == GridOf(column, dy) IN g # "none" => column * RefSize(g)[2] = dy * RefSize(g)[1]
\* doubling and halving do not change the grid
Doubling == swept => \A dy \in 0..Sweep : GridOf(2 * column, 2 * dy) = GridOf(column, dy)
Methods == swept => \A dy \in 0..Sweep : \A v \in Versions :
  HasProjection(column, dy, v) = (GridOf(column, dy) # "none" /\ (v < 5 \/ GridOf(column, dy) = "de1200"))

ASSUME PrintT("SCEN " \o ToJson([limit |-> Limit, table |-> Table]))
=============================================================================

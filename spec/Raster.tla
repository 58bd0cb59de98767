------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Rendering a layer: a blank image of the size of the composite, every    *)
(* cell of the layer is shown to the colour function exactly once, in any  *)
(* order, and the colour returned goes to the pixel of the same place.     *)
(* A layer outside the composite leaves the image blank.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES job,      \* [dx, dy, dz, layer]
          shown,    \* the cells that were shown to the colour function
          image     \* the colour at each place

rastervars == <<job, shown, image>>

Blank == 0
Places(j)  == (0..j.dx - 1) \X (0..j.dy - 1)
Inside(j)  == j.layer >= 0 /\ j.layer < j.dz
\* what has to be shown
Wanted(j)  == IF Inside(j) THEN Places(j) ELSE {}

Start(j) == job = j /\ shown = {} /\ image = [p \in Places(j) |-> Blank]

Show(p, colour) == /\ p \in Wanted(job) \ shown
                   /\ shown' = shown \cup {p}
                   /\ image' = [image EXCEPT ![p] = colour]
                   /\ UNCHANGED job

Complete == shown = Wanted(job)
=============================================================================

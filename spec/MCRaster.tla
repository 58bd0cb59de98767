------------------------------ MODULE MCRaster ------------------------------
(***************************************************************************)
(* All jobs of small sizes, all orders of painting; the colour of a cell   *)
(* is a function of its place here, so that the result is known.           *)
(***************************************************************************)
EXTENDS Raster
CONSTANTS MaxX, MaxY, MaxZ

Jobs == [dx : 0..MaxX, dy : 0..MaxY, dz : 0..MaxZ, layer : -1..MaxZ + 1]
ColourOf(p) == 1 + p[1] + (MaxX + 1) * p[2]

Init == \E j \in Jobs : Start(j)
Next == (\E p \in Wanted(job) : Show(p, ColourOf(p))) \/ (Complete /\ UNCHANGED rastervars)
Spec == Init /\ [][Next]_rastervars /\ WF_rastervars(Next)

TypeOK == shown \subseteq Places(job) /\ DOMAIN image = Places(job)
Faithful == Complete => \A p \in Places(job) : image[p] = IF Inside(job) THEN ColourOf(p) ELSE Blank
Untouched == \A p \in Places(job) : image[p] # Blank <=> p \in shown
Ends == <>Complete
=============================================================================

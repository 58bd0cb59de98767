-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Recognition of the reference grids from the dimensions of a composite.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Grids == {"national", "picture", "extended", "de1200", "european"}

RefSize(g) == CASE g = "national" -> <<900, 900>>
                [] g = "picture"  -> <<920, 920>>
                [] g = "extended" -> <<900, 1100>>
                [] g = "de1200"   -> <<1100, 1200>>
                [] g = "european" -> <<1400, 1500>>

\* both sides halved as long as both are even
RECURSIVE Halved(_, _)
Halved(dx, dy) == IF dx # 0 /\ dy # 0 /\ dx % 2 = 0 /\ dy % 2 = 0
                  THEN Halved(dx \div 2, dy \div 2) ELSE <<dx, dy>>

GridOf(dx, dy) ==
  LET m == {g \in Grids : Halved(dx, dy) = Halved(RefSize(g)[1], RefSize(g)[2])}
  IN  IF m = {} THEN "none" ELSE CHOOSE g \in m : TRUE

\* format version 5 introduced the ellipsoid, which is defined for one grid only
Method(dx, dy, version) ==
  LET g == GridOf(dx, dy)
  IN  CASE g = "none"                       -> "none"
        [] version < 5                      -> "sphere"
        [] version >= 5 /\ g = "de1200"     -> "ellipsoid"
        [] OTHER                            -> "none"

HasProjection(dx, dy, version) == Method(dx, dy, version) # "none"

\* the recognised dimensions up to a limit, constructed instead of tested
RECURSIVE Doublings(_, _, _)
Doublings(dx, dy, lim) == IF dx > lim \/ dy > lim THEN {}
                          ELSE {<<dx, dy>>} \cup Doublings(2 * dx, 2 * dy, lim)
Recognised(lim) == UNION {LET h == Halved(RefSize(g)[1], RefSize(g)[2])
                          IN Doublings(h[1], h[2], lim) : g \in Grids}
=============================================================================

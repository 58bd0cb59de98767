---------------------------- MODULE MCProjection ----------------------------
(***************************************************************************)
(* Facts about the projections on a lattice of coordinates, and the        *)
(* expected pixel coordinates of a given list of coordinates.              *)
(* PLACES is a file with [lats, lons], each coordinate as                  *)
(* <<degrees, ten thousandths, hundred millionths>>.                       *)
(***************************************************************************)
EXTENDS Projection, Json, IOUtils

Places == JsonDeserialize(IOEnv.PLACES)
Coord(t) == Dec(t[1], t[2], t[3])

Dirs == TLCEval([j \in 1..Len(Places.lons) |-> Direction(Coord(Places.lons[j]))])

VARIABLES latno, stage
pvars == <<latno, stage>>

PInit == latno \in 0..Len(Places.lats) /\ stage = "asked"

\* the answer for one latitude: all longitudes, all rules
Answer(n) ==
  LET la == Coord(Places.lats[n])
      sphere == Rho("sphere", la)
      ellip  == Rho("ellipsoid", la)
  IN  {[grid |-> rule[1], method |-> rule[2], lat |-> n,
        xy |-> [j \in 1..Len(Places.lons) |-> Pixel(rule, IF rule[2] = "sphere" THEN sphere ELSE ellip, Dirs[j])]] : rule \in Rules}

PNext == /\ stage = "asked" /\ stage' = "answered" /\ UNCHANGED latno
         /\ IF latno = 0
            THEN PrintT("SCEN " \o ToJson([cal |-> {[grid |-> rule[1], method |-> rule[2], size |-> RefSize(rule[1]),
                            corners |-> Corners(rule), rx |-> Calibration[rule].rx, ry |-> Calibration[rule].ry] : rule \in Rules}]))
            ELSE \A a \in Answer(latno) : PrintT("SCEN " \o ToJson(a))
PSpec == PInit /\ [][PNext]_pvars

--------------------------------------------------------------------------
(* Facts *)
Ulps == 1000000     \* 10^-14

\* the documented corners are the corners of the picture
CornersMeet == \A rule \in Rules :
  LET co == Corners(rule)
      w  == RefSize(rule[1])
      a  == Pixel(rule, Rho(rule[2], co[1]), Direction(co[2]))
      b  == Pixel(rule, Rho(rule[2], co[3]), Direction(co[4]))
  IN  /\ Near(a[1], Zero, Ulps) /\ Near(a[2], Zero, Ulps)
      /\ Near(b[1], Whole(w[1]), Ulps) /\ Near(b[2], Whole(w[2]), Ulps)

\* a kilometre is nearly a kilometre
Resolutions == \A rule \in Rules :
  /\ Less(<<0,0,0,0,9500,0>>, Calibration[rule].rx) /\ Less(Calibration[rule].rx, <<0,0,0,0,500,1>>)
  /\ Less(<<0,0,0,0,9500,0>>, Calibration[rule].ry) /\ Less(Calibration[rule].ry, <<0,0,0,0,500,1>>)

\* southward along a meridian near the vertical one, y grows; eastward, x grows
Lattice == {<<la, lo>> : la \in {20, 40, 50, 60, 75}, lo \in {-40, 0, 9, 10, 20, 60}}
At(rule, la, lo) == Pixel(rule, Rho(rule[2], Whole(la)), Direction(Whole(lo)))
Orientation == \A rule \in Rules : \A p \in Lattice :
  LET here  == At(rule, p[1], p[2])
      south == At(rule, p[1] - 5, p[2])
      east  == At(rule, p[1], p[2] + 5)
  IN  Less(here[2], south[2]) /\ Less(here[1], east[1])

\* the picture of the earth is symmetrical about the vertical meridian
Symmetry == \A rule \in Rules : \A d \in {3, 17, 45, 90} :
  LET mid == At(rule, 52, Meridian)
      ea  == At(rule, 52, Meridian + d)
      we  == At(rule, 52, Meridian - d)
  IN  Near(Sub(ea[1], mid[1]), Sub(mid[1], we[1]), Ulps) /\ Near(ea[2], we[2], Ulps)

\* the pole is one point
Pole == \A rule \in Rules : LET a == At(rule, 90, 0) b == At(rule, 90, 77)
                            IN Near(a[1], b[1], Ulps) /\ Near(a[2], b[2], Ulps)

\* true scale at 60 degrees north: the parallel has the length it has on the sphere
TrueScale == Near(Rho("sphere", Whole(60)), Half(Radius), Ulps)

ASSUME CornersMeet /\ Resolutions /\ Orientation /\ Symmetry /\ Pole /\ TrueScale
=============================================================================

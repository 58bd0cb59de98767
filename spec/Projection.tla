----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* The polar stereographic projections of the reference grids.  Lengths    *)
(* are kilometres on the projection plane, x to the east of the vertical   *)
(* meridian, y from the pole to the south.                                 *)
(***************************************************************************)
EXTENDS Fix, Grid, TLC

Meridian == 10
TrueLat  == Whole(60)

(* sphere *)
Radius == <<0, 0, 0, 0, 400, 6370>>                       \* 6370.04 km

(* WGS84 ellipsoid *)
MajorAxis    == <<0, 0, 0, 0, 1370, 6378>>                \* 6378.137 km
Eccentricity == <<9576, 6214, 842, 1919, 818, 0>>        \* 0.08181919084262149576

\* tangent of half the polar distance, from sine and cosine of the latitude
HalfTan(sine, cosine) == Div(cosine, Add(One, sine))

\* distance from the pole of the parallel with this sine and cosine
SphereFactor == TLCEval(Mul(Radius, Add(One, SinDeg(TrueLat))))
SphereRho(sine, cosine) == Mul(SphereFactor, HalfTan(sine, cosine))

Conformal(sine, cosine) ==
  LET z == Mul(Eccentricity, sine)
  IN  Mul(HalfTan(sine, cosine), ExpSmall(Mul(Eccentricity, Atanh(z))))
EllipsoidFactor == TLCEval(
  LET s == SinDeg(TrueLat)
      c == CosDeg(TrueLat)
  IN  Mul(MajorAxis, Mul(Mul(c, Rsqrt(Sub(One, Sq(Mul(Eccentricity, s))))), Inv(Conformal(s, c)))))
EllipsoidRho(sine, cosine) == Mul(EllipsoidFactor, Conformal(sine, cosine))

Rho(method, lat) == LET s == SinDeg(lat)
                        c == CosDeg(lat)
                    IN  IF method = "sphere" THEN SphereRho(s, c) ELSE EllipsoidRho(s, c)

\* direction from the pole
Direction(lon) == LET d == Sub(lon, Whole(Meridian)) IN [sine |-> SinDeg(d), cosine |-> CosDeg(d)]

Plane(rho, dir) == [x |-> Mul(rho, dir.sine), y |-> Mul(rho, dir.cosine)]

(* The projections: a grid with its method *)
Rules == {<<g, "sphere">> : g \in Grids} \cup {<<"de1200", "ellipsoid">>}

\* documented corners: latitude and longitude of the north-west and the south-east
Corners(rule) ==
  CASE rule = <<"national", "sphere">> ->   \* 54.5877 2.0715 47.0705 14.6209
         <<<<0, 0, 0, 0, 5877, 54>>, <<0, 0, 0, 0, 715, 2>>, <<0, 0, 0, 0, 705, 47>>, <<0, 0, 0, 0, 6209, 14>>>>
    [] rule = <<"picture", "sphere">> ->   \* 54.66218275 1.900684377 46.98044293 14.73300934
         <<<<0, 0, 0, 8275, 6621, 54>>, <<0, 0, 7000, 8437, 9006, 1>>, <<0, 0, 0, 4293, 9804, 46>>, <<0, 0, 0, 934, 7330, 14>>>>
    [] rule = <<"extended", "sphere">> ->   \* 55.5482 3.0889 46.1827 15.4801
         <<<<0, 0, 0, 0, 5482, 55>>, <<0, 0, 0, 0, 889, 3>>, <<0, 0, 0, 0, 1827, 46>>, <<0, 0, 0, 0, 4801, 15>>>>
    [] rule = <<"de1200", "sphere">> ->   \* 55.86584289 1.435612143 45.68358331 16.60186543
         <<<<0, 0, 0, 4289, 8658, 55>>, <<0, 0, 3000, 1214, 4356, 1>>, <<0, 0, 0, 8331, 6835, 45>>, <<0, 0, 0, 6543, 6018, 16>>>>
    [] rule = <<"european", "sphere">> ->   \* 56.5423 -0.8654 43.8736 18.2536
         <<<<0, 0, 0, 0, 5423, 56>>, <<0, 0, 0, 0, 1346, -1>>, <<0, 0, 0, 0, 8736, 43>>, <<0, 0, 0, 0, 2536, 18>>>>
    [] rule = <<"de1200", "ellipsoid">> ->   \* 55.86208711 1.463301510 45.68460578 16.58086935
         <<<<0, 0, 0, 8711, 8620, 55>>, <<0, 0, 0, 151, 4633, 1>>, <<0, 0, 0, 578, 6846, 45>>, <<0, 0, 0, 6935, 5808, 16>>>>

(* offset of the pixel coordinates and kilometres per pixel of the reference grid *)
Calibrate(rule) ==
  LET co == Corners(rule)
      nw == Plane(Rho(rule[2], co[1]), Direction(co[2]))
      se == Plane(Rho(rule[2], co[3]), Direction(co[4]))
      w  == RefSize(rule[1])
  IN  [ox |-> nw.x, oy |-> nw.y,
       rx |-> DivInt(Sub(se.x, nw.x), w[1]), ry |-> DivInt(Sub(se.y, nw.y), w[2])]

Calibration == TLCEval([rule \in Rules |-> Calibrate(rule)])
Inverse     == TLCEval([rule \in Rules |-> [x |-> Inv(Calibration[rule].rx), y |-> Inv(Calibration[rule].ry)]])

\* pixel coordinates on the reference grid
Pixel(rule, rho, dir) ==
  LET p == Plane(rho, dir)
      c == Calibration[rule]
  IN  <<Mul(Sub(p.x, c.ox), Inverse[rule].x), Mul(Sub(p.y, c.oy), Inverse[rule].y)>>
=============================================================================

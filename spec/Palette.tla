------------------------------ MODULE Palette ------------------------------
(***************************************************************************)
(* Colour scales.  A scale is [kind, min, max, comp]: kind is heat, gray   *)
(* or radial, comp is id or log.  The intensities of red, green and blue   *)
(* are numbers between zero and one; every colour is opaque.               *)
(***************************************************************************)
EXTENDS Fix

Black == <<Zero, Zero, Zero>>
Quarter == Dec(0, 2500, 0)

Clamp(p) == IF p[6] < 0 THEN Zero ELSE IF p[6] >= 1 THEN One ELSE p

\* how strong a primary colour is at some hue: full within 60 degrees of its own, none beyond 120
Angle(a, b) == LET d == Abs(Sub(a, b)) IN IF Less(Whole(180), d) THEN Sub(Whole(360), d) ELSE d
Primary(hue, own) == Clamp(Sub(Whole(2), DivInt(Angle(hue, Whole(own)), 60)))

\* colour of a hue in 0..360 and a lightness, fully saturated
HueLight(hue, light) ==
  LET chroma == Sub(One, Abs(Sub(MulInt(light, 2), One)))
      low    == Sub(light, Half(chroma))
      part(own) == Add(low, Mul(chroma, Primary(hue, own)))
  IN  <<part(0), part(120), part(240)>>

\* from blue (240) over green, red (0) to magenta (270) as the position goes from 0 to 1
HeatHue(p) == LET h == Sub(Whole(600), MulInt(p, 330)) IN IF h[6] >= 360 THEN Sub(h, Whole(360)) ELSE h
HeatAt(p) == HueLight(HeatHue(p), Add(Quarter, Half(p)))
GrayAt(p) == <<p, p, p>>

Pale == Div(Whole(204), Whole(255))
\* towards the radar (negative) cyan, away red; near zero a pale tint
RadialAt(negative, near, p) ==
  LET level == IF near THEN One ELSE p
      other == IF near THEN Pale ELSE Zero
  IN  IF negative THEN <<other, level, level>> ELSE <<level, other, other>>

Compress(comp, v) == IF comp = "log" THEN Ln(v) ELSE v
\* the logarithm knows no other numbers
Defined(comp, v) == comp = "id" \/ (Less(Zero, v) /\ ~IsZero(v))

\* cmin, cmax: the compressed limits, so that they are computed once
Colour(scale, cmin, cmax, v) ==
  IF scale.kind = "radial"
  THEN LET near == ~Less(One, Abs(v))
           top  == IF Less(Abs(scale.min), Abs(scale.max)) THEN cmax ELSE cmin
       IN  RadialAt(v[6] < 0, near, IF near THEN Zero ELSE Clamp(Div(Compress(scale.comp, Abs(v)), top)))
  ELSE IF ~Defined(scale.comp, v) \/ Less(v, scale.min) THEN Black
  ELSE LET p == IF Less(scale.max, v) THEN One ELSE Clamp(Div(Sub(Compress(scale.comp, v), cmin), Sub(cmax, cmin)))
       IN  IF scale.kind = "heat" THEN HeatAt(p) ELSE GrayAt(p)

\* of the limits; the radial scale looks at magnitudes
Limit(scale, v) == IF scale.kind = "radial" THEN Compress(scale.comp, Abs(v)) ELSE Compress(scale.comp, v)

ColourScale(kind, min, max, comp) == [kind |-> kind, min |-> min, max |-> max, comp |-> comp]
Tenth == Dec(0, 1000, 0)
Predefined ==
  [HeatmapReflectivityShort |-> ColourScale("heat", Whole(5), Whole(75), "id"),
   HeatmapReflectivity      |-> ColourScale("heat", Whole(1), Whole(75), "id"),
   HeatmapReflectivityWide  |-> ColourScale("heat", Dec(-33, 5000, 0), Whole(75), "id"),
   HeatmapAccumulatedHour   |-> ColourScale("heat", Tenth, Whole(100), "log"),
   HeatmapAccumulatedDay    |-> ColourScale("heat", Tenth, Whole(200), "log"),
   HeatmapRadialVelocity    |-> ColourScale("radial", Dec(-32, 5000, 0), Dec(31, 5000, 0), "log"),
   GraymapLinear            |-> ColourScale("gray", Zero, Dec(409, 5000, 0), "id"),
   GraymapLinearWide        |-> ColourScale("gray", Zero, Whole(4095), "id")]
=============================================================================

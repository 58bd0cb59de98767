----------------------------- MODULE MCPalette -----------------------------
(***************************************************************************)
(* Facts about the colour scales, the colours of many positions, and the   *)
(* colours of the values asked for by the file SCALES: a list of           *)
(* [name, kind, min, max, comp, values]; a known name fixes the scale.     *)
(***************************************************************************)
EXTENDS Palette, Json, IOUtils, TLC

Asked == JsonDeserialize(IOEnv.SCALES)
Num(t) == Dec(t[1], t[2], t[3])
ScaleOf(a) == IF a.name \in DOMAIN Predefined THEN Predefined[a.name]
              ELSE ColourScale(a.kind, Num(a.min), Num(a.max), a.comp)
Rows == 60          \* positions are told in rows of
RowLength == 55

VARIABLES taskno, stage
palvars == <<taskno, stage>>

MInit == taskno \in -Rows..Len(Asked) /\ stage = "asked"
Position(n) == DivInt(Whole(n), Rows * RowLength)

MNext == /\ stage = "asked" /\ stage' = "answered" /\ UNCHANGED taskno
         /\ IF taskno <= 0
            THEN PrintT("SCEN " \o ToJson([row |-> -taskno, of |-> Rows * RowLength,
                   heat |-> [j \in 1..(IF taskno = -Rows THEN 1 ELSE RowLength) |-> HeatAt(Position(-taskno * RowLength + j - 1))]]))
            ELSE \E s \in {ScaleOf(Asked[taskno])} : \E lo \in {Limit(s, s.min)}, hi \in {Limit(s, s.max)} :
                   PrintT("SCEN " \o ToJson([row |-> -1, asked |-> taskno, name |-> Asked[taskno].name, scale |-> s,
                     colours |-> [j \in 1..Len(Asked[taskno].values) |-> Colour(s, lo, hi, Num(Asked[taskno].values[j]))]]))
MSpec == MInit /\ [][MNext]_palvars

--------------------------------------------------------------------------
(* Facts *)
Ulps == 1000000
Steps == 0..110
P(n) == DivInt(Whole(n), 110)
Heats == TLCEval([n \in Steps |-> HeatAt(P(n))])
Most(c)  == IF Less(c[1], c[2]) THEN (IF Less(c[2], c[3]) THEN c[3] ELSE c[2]) ELSE (IF Less(c[1], c[3]) THEN c[3] ELSE c[1])
Least(c) == IF Less(c[2], c[1]) THEN (IF Less(c[3], c[2]) THEN c[3] ELSE c[2]) ELSE (IF Less(c[3], c[1]) THEN c[3] ELSE c[1])
Same(a, b) == \A i \in 1..3 : Near(a[i], b[i], Ulps)

Ends == /\ Same(Heats[0], <<Zero, Zero, Dec(0, 5000, 0)>>)                  \* blue
        /\ Same(Heats[80], HueLight(Zero, Add(Quarter, Half(P(80)))))         \* red at 8/11
        /\ Same(Heats[110], <<Dec(0, 7500, 0), Dec(0, 5000, 0), One>>)      \* magenta
\* the lightness of a colour is the mean of its strongest and its weakest part: it grows all the way
Lightness == \A n \in Steps : Near(Half(Add(Most(Heats[n]), Least(Heats[n]))), Add(Quarter, Half(P(n))), Ulps)
\* blue, then green, then red, then blue again is the strongest
Passing == /\ \A n \in 0..20   : Heats[n][3] = Most(Heats[n])
           /\ \A n \in 20..60  : Near(Heats[n][2], Most(Heats[n]), Ulps)
           /\ \A n \in 60..100 : Near(Heats[n][1], Most(Heats[n]), Ulps)
           /\ \A n \in 100..110 : Near(Heats[n][3], Most(Heats[n]), Ulps)
\* no jumps
Smooth == \A n \in 1..110 : \A i \in 1..3 : Less(Abs(Sub(Heats[n][i], Heats[n - 1][i])), Dec(0, 600, 0))
Limits == \A name \in DOMAIN Predefined : LET s == Predefined[name] IN
  s.kind # "radial" => \E lo \in {Limit(s, s.min)}, hi \in {Limit(s, s.max)} :
     /\ Colour(s, lo, hi, Sub(s.min, Dec(0, 0, 1))) = Black
     /\ Colour(s, lo, hi, Add(s.max, One)) = Colour(s, lo, hi, Add(s.max, Whole(100)))
     /\ Same(Colour(s, lo, hi, s.max), Colour(s, lo, hi, Add(s.max, One)))
\* the two directions mirror each other
Mirror == \E s \in {Predefined.HeatmapRadialVelocity} : \E lo \in {Limit(s, s.min)}, hi \in {Limit(s, s.max)} :
  \A n \in 1..40 : \E a \in {Colour(s, lo, hi, Whole(n))}, b \in {Colour(s, lo, hi, Whole(-n))} : a[1] = b[2] /\ b[2] = b[3] /\ a[2] = b[1] /\ a[3] = b[1]
ASSUME Ends /\ Lightness /\ Passing /\ Smooth /\ Limits /\ Mirror
=============================================================================

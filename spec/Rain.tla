-------------------------------- MODULE Rain --------------------------------
(***************************************************************************)
(* The relationship Z = a * R^b between the rainfall rate R (mm/h) and the *)
(* reflectivity factor, which is reported as dBZ = 10 lg Z.                *)
(* Rates are held by their logarithm, so that no range is lost.            *)
(***************************************************************************)
EXTENDS Fix

Ten == Whole(10)

\* a positive number m * 10^k with 0.0001 <= m < 10^8
LgOf(m, k) == Add(Lg(m), Whole(k))

\* dBZ of a rate given by its logarithm: 10 lg(a * R^b)
Decibel(lga, b, lgr) == MulInt(Add(lga, Mul(b, lgr)), 10)
\* the logarithm of the rate with that reflectivity
LgRate(lga, b, dbz) == Div(Sub(DivInt(dbz, 10), lga), b)

\* x as <<m, k>> with x = m * 10^k and 1 <= m < 10, given lg x
Power10(lg) == <<Exp(Mul(Sub(lg, Whole(lg[6])), Ln10)), lg[6]>>

\* published coefficients
Published == [Aniol80          |-> <<Whole(256), Dec(1, 4200, 0)>>,
              Doelling98       |-> <<Whole(316), Dec(1, 5000, 0)>>,
              JossWaldvogel70  |-> <<Whole(300), Dec(1, 5000, 0)>>,
              MarshallPalmer55 |-> <<Whole(200), Dec(1, 6000, 0)>>]
=============================================================================

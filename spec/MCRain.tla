------------------------------- MODULE MCRain -------------------------------
(***************************************************************************)
(* Facts about the relationship between rate and reflectivity, and the     *)
(* expected conversions of the numbers in the file RAIN:                   *)
(* [rels |-> list of [name, a, b], dbz |-> list, rates |-> list of [m, k]] *)
(***************************************************************************)
EXTENDS Rain, Json, IOUtils, TLC

Asked == JsonDeserialize(IOEnv.RAIN)
Num(t) == Dec(t[1], t[2], t[3])

Coefficient(rel) == IF rel.name \in DOMAIN Published THEN Published[rel.name] ELSE <<Num(rel.a), Num(rel.b)>>
LgRates == TLCEval([j \in 1..Len(Asked.rates) |-> LgOf(Num(Asked.rates[j].m), Asked.rates[j].k)])

VARIABLES relno, stage
rvars == <<relno, stage>>

RInit == relno \in 1..Len(Asked.rels) /\ stage = "asked"
RNext == /\ stage = "asked" /\ stage' = "answered" /\ UNCHANGED relno
         /\ \E rel \in {Asked.rels[relno]} : \E co \in {Coefficient(rel)} : \E lga \in {Lg(co[1])} :
              PrintT("SCEN " \o ToJson([rel |-> relno, name |-> rel.name, a |-> co[1], b |-> co[2],
                 rates |-> [j \in 1..Len(Asked.dbz) |-> Power10(LgRate(lga, co[2], Num(Asked.dbz[j])))],
                 dbz   |-> [j \in 1..Len(Asked.rates) |-> Decibel(lga, co[2], LgRates[j])]]))
RSpec == RInit /\ [][RNext]_rvars

--------------------------------------------------------------------------
(* Facts *)
Ulps == 10000000
As == {Whole(1), Whole(200), Whole(256), Whole(316), Dec(77, 1234, 5678), Dec(0, 5000, 0)}
Bs == {Whole(1), Dec(1, 4200, 0), Dec(1, 6000, 0), Dec(0, 3000, 0), Whole(4)}
Ds == {Whole(n) : n \in {-40, -1, 0, 7, 55, 90}}

Inverse == \A a \in As, b \in Bs, d \in Ds :
  \A lga \in {Lg(a)} : Near(Decibel(lga, b, LgRate(lga, b, d)), d, Ulps)
Increasing == \A a \in As, b \in Bs, d \in Ds :
  \A lga \in {Lg(a)} : Less(LgRate(lga, b, d), LgRate(lga, b, Add(d, Dec(0, 0, 1))))
\* a rate of 1 has the reflectivity a; ten times the rate is 10 b decibels more
UnitRate == \A a \in As, b \in Bs : \A lga \in {Lg(a)} : Near(Decibel(lga, b, Zero), MulInt(lga, 10), Ulps)
TenFold == \A a \in As, b \in Bs : \A lga \in {Lg(a)} :
  Near(Decibel(lga, b, Whole(3)), Add(Decibel(lga, b, Whole(2)), MulInt(b, 10)), Ulps)
\* the linear form: Z = a R^2 for b = 2
Square == \A r \in {Whole(3), Dec(0, 2500, 0), Dec(41, 7, 9)} :
  Near(Decibel(Lg(Whole(200)), Whole(2), Lg(r)), MulInt(Lg(Mul(Whole(200), Sq(r))), 10), Ulps)
LogPower == \A x \in {Whole(2), Dec(9, 9999, 0), Dec(1, 0, 1)} :
  \A p \in {Power10(Lg(x))} : p[2] = 0 /\ Near(p[1], x, Ulps)
ASSUME Inverse /\ Increasing /\ UnitRate /\ TenFold /\ Square /\ LogPower
=============================================================================

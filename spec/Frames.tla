------------------------------- MODULE Frames -------------------------------
(* Rendering of complete frames with the usual fields. *)
EXTENDS Header

F(key, text) == [key |-> T(key), text |-> text]
Date == T("262115")  Wmo == T("10000")  MonthYear == T("0616")
Frame(label, post, body) ==
  Render(T(label), Date, Wmo, MonthYear, <<>>, post, Len(body)) \o body
WithLength(label, post, body, len) ==
  Render(T(label), Date, Wmo, MonthYear, <<>>, post, len) \o body

GP(r, c)  == F("GP", I(r, 4) \o T("x") \o I(c, 4))
BG(r, c)  == F("BG", I(r, 3) \o I(c, 3))
E1        == F("PR", T(" "))
Prec(p)   == F("E", IF p < 0 THEN T("-") \o I0(-p, 2) ELSE T("+") \o I0(p, 2))
VS(n)     == F("VS", I(n, 2))
LV(ls)    == F("LV", I(Len(ls), 2) \o Concat([i \in 1..Len(ls) |-> F51(ls[i])]))
VV(n)     == F("VV", T(" ") \o I0(n, 3))
INT(n)    == F("INT", I(n, 4))
MS(s)     == F("MS", I(Len(s), 3) \o T(s))
=============================================================================

------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* What the documentation of the products fixes: units, and the sizes of   *)
(* local picture products, whose headers do not carry dimensions.          *)
(***************************************************************************)
EXTENDS Integers

Unit_dBZ == {"CX","EA","EX","FX","FZ","HX","OL","OX","PA","PC","PF","PG","PI","PK","PL",
             "PM","PN","PX","PZ","RX","TX","WN","WX"}
Unit_mm  == {"CH","D2","D3","EB","EC","EH","EM","EW","EY","EZ","PH","PY","RA","RB","RE","RH",
             "RK","RL","RM","RN","RQ","RR","RU","RW","RY","RZ","S2","S3","SF","SH","SQ",
             "TB","TH","TW","TZ","W1","W2","W3","W4","YW"}
Unit_km  == {"PE"}
Unit_mps == {"PD","PR","PU","PV"}

Known == Unit_dBZ \cup Unit_mm \cup Unit_km \cup Unit_mps

UnitOf(label) == CASE label \in Unit_dBZ -> "dBZ"
                   [] label \in Unit_mm  -> "mm"
                   [] label \in Unit_km  -> "km"
                   [] label \in Unit_mps -> "m/s"
                   [] OTHER              -> "unknown"

\* local picture products: 200x200 cells, below a strip showing the elevation
\* (24 rows), or twelve layers linked downwards
Local == {"OL","OX","PD","PE","PF","PH","PL","PM","PR","PU","PV","PX","PY","PZ"}
Volumes == {"PU","PZ"}
TwoKm   == {"OL","PE","PL","PM","PZ"}

LocalSize(label) == [px |-> 200,
                     py |-> IF label \in Volumes THEN 12 * 200 ELSE 200 + 24,
                     dx |-> 200, dy |-> 200,
                     res |-> IF label \in TwoKm THEN 2 ELSE 1]

\* precipitation sums whose interval field counts units of ten minutes
TenMinuteIntervals == {"W1","W2","W3","W4"}

\* labels that read like a header field; what they mean is not defined
FieldNames == {"BY", "VV", "GP", "BG", "LV", "VS"}
=============================================================================

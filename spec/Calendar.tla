------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* A clock that walks through every day expressible in a header, and       *)
(* probes of single dates.  The clock counts days on its own; the          *)
(* properties say that reading the header's date text gives the clock's    *)
(* time, and that the days after the last one of a month do not exist.     *)
(***************************************************************************)
EXTENDS Header, TLC, Json

CONSTANTS Probes, Dense          \* with single dates, every time of day

VARIABLES mode, y, mo, d, n      \* n: days since 1970-01-01
vars == <<mode, y, mo, d, n>>

TwoDigits(v) == I0(v, 2)
DateText(dd, hh, mi) == TwoDigits(dd) \o TwoDigits(hh) \o TwoDigits(mi)
YearText(m, yr)      == TwoDigits(m) \o TwoDigits(yr % 100)

ClockInit == mode = "clock" /\ y = 1969 /\ mo = 1 /\ d = 1 /\ n = -365

\* probes: d and mo are any two digits, n stands for hour * 100 + minute
ProbeYears == {16, 69, 68, 0, 99}
ProbeInit == /\ Probes /\ mode = "probe"
             /\ \/ y \in ProbeYears /\ mo \in 0..99 /\ d \in 0..99 /\ n = 1234
                \/ y = 16 /\ mo = 6 /\ d = 26 /\ n \in 0..9999
                \/ y \in 0..99 /\ mo = 2 /\ d \in 28..30 /\ n \in {0, 2359}

Init == ClockInit \/ ProbeInit

Tick == /\ mode = "clock" /\ <<y, mo, d>> # <<2068, 12, 31>>
        /\ n' = n + 1 /\ UNCHANGED mode
        /\ IF d < DaysIn(mo, y) THEN d' = d + 1 /\ UNCHANGED <<mo, y>>
           ELSE d' = 1 /\ IF mo < 12 THEN mo' = mo + 1 /\ UNCHANGED y
                          ELSE mo' = 1 /\ y' = y + 1

Spec == Init /\ [][Tick]_vars

--------------------------------------------------------------------------
At(hh, mi) == CaptureTime(DateText(d, hh, mi), YearText(mo, y))

HourOfDay == (7 * (n + 400)) % 24
MinuteOfHour == (13 * (n + 400)) % 60

ReadsClock == mode = "clock" =>
  /\ At(0, 0) = Ok(n * 1440, <<>>)
  /\ At(23, 59) = Ok(n * 1440 + 1439, <<>>)
  /\ At(HourOfDay, MinuteOfHour) = Ok(n * 1440 + HourOfDay * 60 + MinuteOfHour, <<>>)

LastDay == mode = "clock" /\ d = DaysIn(mo, y) =>
  \A x \in (d + 1)..40 : CaptureTime(DateText(x, 0, 0), YearText(mo, y)) = Bad

Weekday == mode = "clock" => DaysBeforeYear(y) - DaysBeforeYear(1970) <= n

Scen(dd, hh, mi, m, yr) ==
  LET r == CaptureTime(DateText(dd, hh, mi), YearText(m, yr))
  IN  PrintT("SCEN " \o ToJson([date |-> DateText(dd, hh, mi), my |-> YearText(m, yr), k |-> r.k, min |-> r.v]))

Emit == CASE mode = "clock" -> /\ Scen(d, HourOfDay, MinuteOfHour, mo, y)
                               /\ (Dense => Scen(d, 0, 0, mo, y) /\ Scen(d, 23, 59, mo, y))
          [] mode = "probe" -> Scen(d, n \div 100, n % 100, mo, y)
=============================================================================

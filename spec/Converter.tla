----------------------------- MODULE Converter -----------------------------
(***************************************************************************)
(* The program that turns a composite file into a picture.  It is called   *)
(* with some names; it opens and parses the input, renders layer 0 with    *)
(* the scale of the unit, creates the output and writes the picture.       *)
(***************************************************************************)
EXTENDS Parse

P == INSTANCE Palette

CONSTANT Jobs     \* [args, by, input, output]; input is the name of a file of FileNamed, "@missing" or "@directory"
CONSTANT FileNamed(_)

VARIABLES job,      \* what the program was called with
          at,       \* next step of the program
          solo,     \* the parse of the input
          picture,  \* the rendered picture, rows of colours
          out,      \* what the output file holds: "none", "old", "empty", "picture"
          exit,     \* "running", "good" or "bad"
          said,     \* whether the usage was printed
          told      \* what was printed about the input: product, unit, forecast time, extent of the grid
convvars == <<job, at, solo, picture, out, exit, said, told>>

\* ways an output name can be
Creatable(o) == o \in {"fresh", "old", "self", "full"}
Writable(o)  == o \in {"fresh", "old", "self"}
Before(o)    == IF o \in {"old", "self"} THEN "old" ELSE "none"

Init == /\ job \in Jobs /\ at = "start" /\ solo = [v |-> "none"] /\ picture = <<>>
        /\ out = Before(job.output) /\ exit = "running" /\ said = FALSE /\ told = <<>>

Leave(how) == at' = "left" /\ exit' = how

Usage == /\ at = "start" /\ job.args < 2
         /\ said' = TRUE /\ Leave("good") /\ UNCHANGED <<job, solo, picture, out, told>>

Open == /\ at = "start" /\ job.args >= 2
        /\ IF job.input = "@missing" THEN Leave("bad") ELSE at' = "opened" /\ UNCHANGED exit
        /\ UNCHANGED <<job, solo, picture, out, said, told>>

\* kilometres across and down
Extent(h) == IF h.proj = "none" THEN <<>> ELSE RefSize(GridOf(h.dx, h.dy))

\* a directory can be opened, but not read
ParseInput == /\ at = "opened"
              /\ IF job.input = "@directory" THEN Leave("bad") /\ UNCHANGED <<solo, told>>
                 ELSE \E f \in {FileNamed(job.input)} : \E s \in {Solo(f, Len(f))} :
                        /\ solo' = s
                        /\ IF s.v = "ok"
                           THEN /\ at' = "parsed" /\ UNCHANGED exit
                                /\ told' = <<[product |-> s.hdr.product, unit |-> s.hdr.unit, fc |-> s.hdr.fc, extent |-> Extent(s.hdr)]>>
                           ELSE Leave(IF s.v = "wild" THEN "any" ELSE "bad") /\ UNCHANGED told
              /\ UNCHANGED <<job, picture, out, said>>

--------------------------------------------------------------------------
Day == 24 * 60
MostRain(minutes) == IF minutes <= 60 THEN P!Whole(100) ELSE IF minutes >= 7 * Day THEN P!Whole(400) ELSE P!Whole(200)
ScaleFor(unit, minutes) ==
  CASE unit = "mm"  -> P!ColourScale("heat", P!Tenth, MostRain(minutes), "log")
    [] unit = "dBZ" -> P!Predefined.HeatmapReflectivity
    [] unit = "km"  -> P!ColourScale("gray", P!Zero, P!Whole(15), "id")
    [] unit = "m/s" -> P!Predefined.HeatmapRadialVelocity

\* the number an abstract cell stands for
RECURSIVE Times10(_, _)
Times10(x, e) == IF e = 0 THEN x ELSE IF e > 0 THEN Times10(P!MulInt(x, 10), e - 1) ELSE Times10(P!DivInt(x, 10), e + 1)
Number(scale, m) == LET v == Times10(P!Whole(m), scale.exp)
                    IN  IF scale.dbz THEN P!Sub(P!Half(v), P!Dec(32, 5000, 0)) ELSE v

Picture(h, cells) ==
  LET s == ScaleFor(h.unit, h.int)
  IN  Once({[y \in 1..Len(cells) |-> [x \in 1..Len(cells[y]) |->
              IF cells[y][x] = NA THEN P!Black ELSE P!Colour(s, lo, hi, Number(h.scale, cells[y][x]))]] :
            lo \in {P!Limit(s, s.min)}, hi \in {P!Limit(s, s.max)}})
--------------------------------------------------------------------------

Paint == /\ at = "parsed" /\ at' = "rendered"
         /\ picture' = Picture(solo.hdr, CompositeOf(solo).z[1])
         /\ UNCHANGED <<job, solo, out, exit, said, told>>

Create == /\ at = "rendered"
          /\ IF Creatable(job.output) THEN at' = "created" /\ out' = "empty" /\ UNCHANGED exit
             ELSE Leave("bad") /\ UNCHANGED out
          /\ UNCHANGED <<job, solo, picture, said, told>>

Write == /\ at = "created"
         /\ IF Writable(job.output) THEN out' = "picture" /\ Leave("good")
            ELSE UNCHANGED out /\ Leave("bad")
         /\ UNCHANGED <<job, solo, picture, said, told>>

Next == Usage \/ Open \/ ParseInput \/ Paint \/ Create \/ Write
Spec == Init /\ [][Next]_convvars /\ WF_convvars(Next)

--------------------------------------------------------------------------
Usable == job.input \notin {"@missing", "@directory"} /\ solo.v = "ok"
\* C21
Faithful == exit = "good" /\ job.args >= 2 => out = "picture" /\ Usable
Visible  == exit = "bad" => ~Usable \/ ~Writable(job.output)
Untouched == exit # "running" /\ (job.args < 2 \/ ~Usable) => out = Before(job.output)
OnlyUsage == said => job.args < 2 /\ at = "left"
\* what is converted is told, and nothing else
Told     == exit # "running" => (told # <<>>) = (job.args >= 2 /\ Usable)
Ends == <>(exit # "running")
=============================================================================

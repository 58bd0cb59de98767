import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    P.append(d)

p("C01","Single-byte composites decode exactly, cell by cell",
 "For every composite whose declared data length is one byte per cell, parsing succeeds with a full grid in which the first transmitted row is the bottom row and columns run left to right. A byte of 250 is NaN; every other byte v is v*10^precision, and for products measured in dBZ that number is halved and reduced by 32.5. No other byte of the frame influences a cell.",
 ["inputs"],"every product label, precision field, grid shape (including rows longer than any internal buffer) and cell content",
 "No existing test parses a data section at all; only two headers are tested, so 256 byte values x precisions x shapes are untouched.",
 ["singlebyte.go","data.go","conversion.go"],[("row loop with vertical flip","singlebyte.go:parseSingleByte"),("byte to value","singlebyte.go:rvp6SingleByte"),("precision and bias","conversion.go:rvp6Raw,toDBZ")],["NewComposite result: PlainData, Data, DataZ"])
p("C02","Two-byte composites decode exactly, cell by cell",
 "For every composite whose declared data length is two bytes per cell (low byte first), parsing succeeds with a full grid in which the first transmitted row is the bottom row. The low 12 bits are the magnitude; bit 13 makes the cell NaN whatever the other bits are, bit 14 negates it, bits 12 and 15 have no influence. The value is magnitude*10^precision, halved and reduced by 32.5 for products measured in dBZ.",
 ["inputs"],"all 65536 cell codes, every product label, precision field and grid shape",
 "No existing test decodes a two-byte cell; flag combinations, precisions and shapes are unreachable by a handful of samples.",
 ["littleendian.go","data.go","conversion.go"],[("row loop with vertical flip","littleendian.go:parseLittleEndian"),("tuple to value","littleendian.go:rvp6LittleEndian")],["NewComposite result: PlainData, Data, DataZ"])
p("C03","Run-length composites decode exactly, row by row",
 "A composite with a level table is read as newline-terminated rows in top-to-bottom order: one ignored byte, then an offset (byte minus 16, continued while the byte is 255), then bytes whose high nibble is a repeat count and whose low nibble selects a level (1 is the first level). Cells that no run covers, level 0 and levels beyond the table are NaN; every other cell holds exactly its level value. A row with an offset byte below 16, or with a run reaching past the right edge, makes parsing fail.",
 ["inputs"],"all row contents (offset chains, runs, empty rows), all level tables, all grid widths, local and composite picture products",
 "The level-table header of one product is tested; no row is ever decoded by a test, and the row language is infinite.",
 ["runlength.go","header.go"],[("row reader","runlength.go:readLineRunlength"),("row automaton","runlength.go:decodeRunlength"),("level lookup","runlength.go:rvp6Runlength"),("level table","header.go:parseHeader")],["NewComposite result and error"])
p("C04","Incomplete or contradictory input is always reported",
 "Parsing reports success only if the complete header and every row of the data section were delivered. If the source ends or fails, even once or temporarily, anywhere before the end of the last row, or the header lacks its terminator, a usable capture time, data length or dimensions, or declares a malformed level table or a data length matching no encoding, a non-nil error other than the unknown-unit error is returned.",
 ["inputs","fault_sequences"],"every truncation point and every position of a read error in frames of all three encodings, and every kind of malformed header",
 "Tests feed only two complete headers and never an input that must be rejected; faults at each byte position are a quantifier over positions.",
 ["radolan.go","header.go","data.go","singlebyte.go","littleendian.go","runlength.go"],[("header checks","header.go:parseHeader"),("encoding identification","data.go:identifyEncoding"),("full row reads","singlebyte.go, littleendian.go: io.ReadFull; runlength.go: ReadBytes")],["error result of NewComposite"])
p("C05","No input crashes or hangs parsing",
 "For any byte sequence and any well-behaved or failing source, parsing a composite or an archive terminates with a result or an error; it never panics, hangs or allocates without bound for dimensions the format cannot express.",
 ["inputs","fault_sequences"],"arbitrary byte strings, in particular mutated valid frames: sign, size and count fields at extreme values, fields missing, repeated, reordered or empty, non-ASCII text",
 "Tests parse two well-formed headers only; robustness is a statement about every byte string.",
 ["header.go","data.go","radolan.go","runlength.go"],[("dimension check","data.go:parseData"),("length check","header.go:parseHeader"),("level count check","header.go:parseHeader"),("run bound","runlength.go:decodeRunlength")],["NewComposite, NewComposites return"])
p("C06","The result depends on the frame's bytes only",
 "How the source splits the bytes over reads (single bytes, arbitrary chunks, data together with end-of-file, empty reads) never changes the parsed composite or the kind of outcome. Once the last byte of the data section has been delivered, whatever the source does next (more bytes, another frame, a read error) does not change the result either. How long the source takes does not matter, and it is left alone once the result is returned.",
 ["schedules","fault_sequences","inputs"],"all partitions of a frame into reads, and all continuations after the frame, for all encodings and sizes around buffer boundaries",
 "Tests read from one in-memory string whose content arrives in a single read; chunkings are exponentially many.",
 ["radolan.go","singlebyte.go","littleendian.go","runlength.go","header.go"],[("buffered reader shared by header and data","radolan.go:NewComposite"),("complete row reads","singlebyte.go:readLineSingleByte, littleendian.go:readLineLittleEndian, runlength.go:readLineRunlength")],["NewComposite result under a scripted io.Reader"])
p("C07","Capture time, forecast time and interval are read correctly",
 "The capture time is the UTC instant given by day, hour and minute after the product label and month and two-digit year after the station number (years 69-99 are 1969-1999, others 2000-2068); impossible dates or times are errors. The forecast time is the capture time plus the minutes in the forecast field, or equal to it if there is none. The interval is the minutes in the interval field, or ten times as many for the products W1 to W4, or zero if there is none.",
 ["inputs"],"all calendar instants, all forecast offsets and intervals, all product labels, any field order",
 "Two instants and one forecast offset are tested.",
 ["header.go"],[("date cut and parse","header.go:parseHeader"),("forecast arithmetic","header.go:parseHeader"),("interval scale","header.go:parseHeader")],["Composite.CaptureTime, ForecastTime, Interval"])
p("C08","Header fields are independent of order and neighbours",
 "Every header field is the run of upper-case letters naming it plus the text up to the next upper-case letter. The value taken from a field depends on its own text only: not on the order of fields, on unknown fields in between, on the station list, on blank padding of numbers, or on whether it is the last field; a field without text never takes over another field's value.",
 ["inputs"],"all permutations of the defined fields with arbitrary unknown fields and paddings, in headers of all encodings",
 "Two fixed headers are tested; the number of field orders and neighbours is combinatorial.",
 ["header.go"],[("field splitter","header.go:splitHeader"),("field parsing","header.go:parseHeader")],["all exported Composite fields and cell values after NewComposite"])
p("C09","Grid dimensions come from the header or the product catalogue",
 "The grid has the rows x columns of the GP field, or else of the three-digit pairs of the BG field, or else, for local picture products, the documented catalogue size: 200x200 cells per layer cut from 200 columns by 224 or 2400 rows. Reported plain and layer dimensions always equal the dimensions of the arrays handed out. A level table selects run-length decoding, otherwise the declared length selects one or two bytes per cell, and any other length, non-positive dimension or missing dimension is an error.",
 ["inputs","configurations"],"all products of the catalogue, all dimension pairs expressible in the fields, all relations of declared length to dimensions",
 "Two headers check Dx, Dy only; no array is ever allocated in a test.",
 ["header.go","catalog.go","data.go"],[("dimension sources","header.go:parseHeader"),("local product sizes","catalog.go:dimensionCatalog"),("encoding choice","data.go:identifyEncoding"),("array allocation","data.go:parseData")],["Composite.Px,Py,Dx,Dy,Dz and array lengths"])
p("C10","Layers are cut out of the plain data without loss or shift",
 "If the number of plain rows is a multiple of the layer height, layer z consists of the plain rows z*height to (z+1)*height-1 in order, for every z; otherwise there is exactly one layer, made of the bottom-most rows. The two-dimensional data is layer 0 itself: what is written into one is read in the other.",
 ["inputs","configurations"],"all products (single layer, side-projection strip, multi-layer volumes) and all cell contents",
 "No test looks at data layers.",
 ["data.go","catalog.go"],[("layer slicing","data.go:arrangeData")],["Composite.DataZ, Data, Dz, PlainData"])
p("C11","Point access is total and agrees with the data",
 "Reading a point returns the stored cell for every coordinate inside the volume and NaN for every other integer coordinate, including negative and extreme ones; it never panics, also not on a blank dummy composite or on a composite returned together with an error. IsNaN recognises exactly these missing values. The two-dimensional accessor reads layer 0.",
 ["inputs","histories"],"all integer coordinate triples on all kinds of composites",
 "No test calls the accessors.",
 ["radolan.go"],[("bounds test","radolan.go:AtZ"),("layer 0","radolan.go:At")],["At, AtZ results"])
p("C12","Units follow the product catalogue and unknown units are flagged",
 "The unit of a composite is the catalogue's unit for its two-character product label, printed as mm, dBZ, km, m/s or unknown unit. A label outside the catalogue yields the unknown unit together with the unknown-unit error and a completely parsed composite (cells without dBZ conversion); a label inside the catalogue never yields that error.",
 ["inputs","configurations"],"all two-character product labels that are not themselves names of header fields, in all encodings",
 "Only the labels PG and FZ are tested, and not their unit.",
 ["catalog.go","header.go","radolan.go"],[("unit table","catalog.go:unitCatalog"),("lookup","header.go:parseHeader"),("late unknown-unit error","radolan.go:NewComposite")],["Composite.DataUnit, Product, error identity"])
p("C13","Archives yield all members in forecast order, or an error",
 "Reading a tar.bz2 archive returns exactly one composite per member, each equal to parsing that member alone, ordered by ascending forecast time whatever the order of the members. If any member cannot be parsed without error, or the archive is damaged, truncated in a member or its source fails, no composites and an error are returned; an archive without members gives an empty result without error.",
 ["inputs","histories","fault_sequences"],"all sequences of members, permutations of forecast times, damaged members at any position, damaged or failing archive streams",
 "No test reads an archive.",
 ["radolan.go"],[("member loop","radolan.go:NewComposites"),("sort by forecast time","radolan.go:NewComposites")],["NewComposites result and error"])
p("C14","Parses and composites are isolated from each other",
 "Parsing is a function of its own input: results are the same whatever was parsed or attempted before, even by a source that panicked, and whatever other parses run at the same time, interleaved at any read or begun within one; a parse completes although another one is still being read. A composite already returned never changes because of later parses, of other composites, or of what a program writes into the cells of another one; a cell written into changes no other cell; and reading points of it and projecting coordinates may be done concurrently and does not alter it.",
 ["schedules","histories"],"all interleavings of concurrent parses at read granularity, all sequences of successful and failing parses, concurrent readers",
 "Tests run one parse at a time and never look at an older result again; interleavings are unbounded.",
 ["radolan.go","data.go","singlebyte.go","littleendian.go","runlength.go","projection.go"],[("all parse state lives in the new composite","radolan.go:NewComposite"),("fresh row buffers","singlebyte.go, littleendian.go: readLine*"),("shared read-only tables","data.go:parse, catalog.go, projection_wgs84.go")],["results of concurrent NewComposite calls under scheduled readers"])
p("C15","Projection is available exactly for the documented grids",
 "A composite supports projection if and only if its width and height are those of a reference grid (900x900, 920x920, 900x1100, 1100x1200, 1400x1500) after halving both sides of both as long as both are even, and its format version is below 5 or the grid is the 1100x1200 one. Without projection every projected coordinate is NaN. This holds alike for parsed composites and for dummies and is independent of the product.",
 ["inputs","configurations"],"all widths and heights, all format versions, parsed and dummy composites",
 "About a dozen dimension pairs are tested, none of them negative.",
 ["projection.go","radolan.go"],[("bisection","projection.go:minRes"),("grid table","projection.go:detectGrid"),("version rule","projection.go:calibrateProjection")],["Composite.HasProjection, Project"])
p("C16","Spherical projection places coordinates on the documented grid",
 "For grids of format version below 5, every coordinate is mapped to the pixel position given by the polar stereographic projection of the DWD specification (sphere of 6370.04 km, true at 60N, meridian 10E vertical), shifted and scaled so that the documented north-west corner is (0,0) and the documented south-east corner is (width,height). Pixel coordinates of a grid stored at half, quarter or double resolution are those of the reference grid scaled accordingly. Coordinates that are not finite numbers have no position: NaN.",
 ["inputs","configurations"],"all coordinates of the northern hemisphere and beyond, all grids and resolutions",
 "Five points per grid are tested with 100 m tolerance; the grid files for the dense test are not in the repository, so that test always fails.",
 ["projection.go","projection_sphere.go"],[("corner table","projection.go:cornerPoints"),("calibration","projection.go:calibrateProjection"),("formula","projection_sphere.go:projectSphere")],["Project"])
p("C17","Ellipsoidal projection of the 1100x1200 grid is exact",
 "For format version 5 and above, coordinates on the 1100x1200 grid are mapped by the WGS84 polar stereographic projection (true at 60N, meridian 10E vertical), shifted and scaled so that the documented corners of that grid version are (0,0) and (width,height); below version 5 the spherical projection with its own corners is used. The mapping scales with the stored resolution. Coordinates that are not finite numbers have no position: NaN.",
 ["inputs","configurations"],"all coordinates, all format versions around the switch, all resolutions",
 "Only the four corners at one resolution and version 5 are tested, two of which hold for any formula by calibration.",
 ["projection.go","projection_wgs84.go"],[("version switch","projection.go:calibrateProjection, cornerPoints"),("formula","projection_wgs84.go:projectWGS84")],["Project"])
p("C18","Rainfall rate and reflectivity are consistent with Z = a*R^b",
 "For every relationship Z = a*R^b, converting a rate R to reflectivity gives 10*log10(a*R^b), and converting a reflectivity to a rate is the inverse of it and strictly increasing; NaN stays NaN. The predefined relationships have the published coefficients (256,1.42), (316,1.50), (300,1.50) and (200,1.60).",
 ["inputs","configurations"],"all coefficients a,b > 0, all rates and reflectivities of practical magnitude",
 "Four values of one relationship are tested, with absolute tolerances that hide small relative errors.",
 ["conversion.go"],[("coefficients","conversion.go:NewZR"),("forward and inverse","conversion.go:PrecipitationRate, Reflectivity")],["PrecipitationRate, Reflectivity, NewZR"])
p("C19","Images reproduce a layer pixel by pixel",
 "Rendering a layer yields an image of exactly the composite's width and height whose pixel (x,y) is the colour function applied to the cell (x,y) of that layer, each cell exactly once. A layer outside the composite yields a blank image of the same size.",
 ["inputs","configurations"],"all composites, layers (including negative and too large), and colour functions",
 "The visualization package has no tests.",
 ["radolan2png/vis/vis.go"],[("pixel loop","radolan2png/vis/vis.go:Image")],["vis.Image"])
p("C20","Colour scales clamp, order and mark data consistently",
 "All colour scales are total, opaque functions of the value alone: NaN is black, heat and gray values below the minimum are black, and values at or above the maximum get the maximum's colour. In between, gray levels grow proportionally with the (compressed) value, and heat colours run through the hues from blue over red to magenta with growing lightness according to the (compressed) position. The radial scale shows negative values in cyan, others in red, brightness growing with the (compressed) magnitude and near-zero velocities as a pale tint.",
 ["inputs","configurations"],"all finite and non-finite values, all predefined scales and scale bounds with both compressions",
 "The visualization package has no tests.",
 ["radolan2png/vis/vis.go"],[("gray","radolan2png/vis/vis.go:Graymap"),("heat","radolan2png/vis/vis.go:Heatmap"),("radial","radolan2png/vis/vis.go:Radialmap"),("predefined scales","radolan2png/vis/vis.go")],["ColorFunc results"])
p("C21","The converter writes a faithful picture or fails visibly",
 "The converter exits successfully with a PNG of the composite's size if and only if the input parses without error and the output can be created; otherwise it exits with failure and, when the input is unusable, creates no output file; with missing arguments it only prints its usage. It tells the product, unit and forecast time of what it converts, and the extent of its grid in kilometres if it has a projection. Every pixel of the picture has the colour that the scale for the composite's unit and interval assigns to the cell, except that composites with a projection carry border and mesh points.",
 ["inputs","configurations","fault_sequences"],"all kinds of inputs (valid in each unit, truncated, missing, unknown unit), argument lists and output paths",
 "The program has no tests.",
 ["radolan2png/radolan2png.go","radolan2png/vis/vis.go"],[("pipeline","radolan2png/radolan2png.go:convert"),("scale choice","radolan2png/radolan2png.go:convert"),("overlay only with projection","radolan2png/radolan2png.go:convert")],["exit status, output file, PNG pixels"])
p("C22","Reported resolution is the grid's true resolution",
 "The horizontal and vertical resolution of a composite is the extent of its grid in kilometres on the projection plane divided by its width and height if it has a projection, the catalogue's resolution (1 or 2 km) for local picture products, and NaN otherwise. Consequently the distance of two places computed from pixel coordinates and resolution is the same for every stored resolution of a grid.",
 ["inputs","configurations"],"all grids and stored resolutions, all local products, all format versions",
 "One distance on seven dummies is tested; local products are never parsed (and lost their resolution).",
 ["projection.go","header.go","catalog.go"],[("calibration","projection.go:calibrateProjection"),("catalogue","catalog.go:dimensionCatalog")],["Composite.Rx, Ry"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])

TRACE = "TLA+ decoder state machine, TLC; trace validation of recorded parses"
NOTES = {
 "C01": (TRACE + " and replay of model behaviours", "All 256 byte values x 6 units x 27 precisions against the specification's cell table, frames of all real sizes, random frames validated as traces. Values are compared within 2^-21 relative (single precision)."),
 "C02": (TRACE + " and replay of model behaviours", "All 65536 cell codes x 6 units x 27 precisions against the specification's cell table, frames of all real sizes, random frames validated as traces."),
 "C03": ("TLA+ row automaton, TLC exhaustive over short rows, each replayed; trace validation", "The automaton is checked against a declarative reading of the bytes; every row up to 4 (5) bytes over the critical byte values is replayed in the library; random long rows are validated as traces."),
 "C04": (TRACE + " incl. every truncation point", "Every cut position of generated frames (end and failure), some 40 kinds of header damage, mutated files. Texts to which the format gives no meaning are left open."),
 "C05": (TRACE + ", mutation of frames", "Termination is a liveness property of the model; the code is exercised with hundreds of thousands of damaged files and archives per run. No proof for unseen inputs."),
 "C06": ("TLA+ decoder state machine, TLC; all behaviours of the small model replayed; trace validation", "All splittings of small frames at the critical positions, random splittings of larger ones, 17 kinds of readers of the standard library, failures and further data after the frame. A mismatch counts only if the same frame, delivered at once in a fresh process, gives another result."),
 "C07": ("TLA+ calendar clock, TLC; every day replayed; trace validation", "Every expressible day, impossible dates by two-digit sweeps, the interval of every two-character label, random intervals and forecasts, local time zone other than UTC."),
 "C08": ("TLA+ header composition, TLC exhaustive over orders; each replayed; trace validation", "Every order of up to 4 (5) fields of a vocabulary with every position of the length field."),
 "C09": (TRACE, "Dimension fields in all widths, all local products, real sizes."),
 "C10": (TRACE + "; layouts of all local products", "Layer layout of every local product in every encoding, cell by cell, against the specification's layout table."),
 "C11": ("TLA+ point access, trace validation of access histories", "All coordinates in and around small volumes, extreme ones at random, dummies and failed composites."),
 "C12": ("TLA+ catalogue; exhaustive over labels; trace validation", "All catalogue labels and some thousand others x 3 encodings with all cells, several times."),
 "C13": ("TLA+ archive machine, TLC; every small archive with every fault replayed; trace validation", "All orders and all failing positions of small archives, random archives as traces with any member names and tar formats, truncation at every tar boundary class, bit flips in the compressed stream. Damage that leaves a sound bzip2 and tar stream is out of reach of any reader."),
 "C14": ("TLA+ product of decoders and TLA+ client of the whole library, TLC; all interleavings of reads and histories of calls replayed; trace validation", "Every interleaving of reads of two and three small parses; all short and many long histories of calls (parses, archives, dummies, points, pictures, projection, overwritten cells); random histories of real size sequentially and at the same time, deep copies of earlier composites compared; the race detector observes the same runs. A mismatch counts only if the same call alone in a fresh process gives another result."),
 "C15": ("TLA+ grid recognition; exhaustive sweep of the dimensions against the specification's table", "All dimensions up to 1600x1600 (6000x6000) for two versions, every recognised size with every version and label and its neighbours, parsed composites."),
 "C16": ("TLA+ projection in 20-digit fixed point, TLC; points compared", "Every stored resolution of every grid at random and special coordinates; tolerance 1e-7 pixel. Latitudes below -70 degrees are left out (the projection plane runs out)."),
 "C17": ("TLA+ projection in 20-digit fixed point, TLC; points compared", "As C16, with the ellipsoid; every stored resolution of the 1100x1200 grid and versions 5 to 12."),
 "C18": ("TLA+ logarithm law in fixed point, TLC; conversions compared", "Published and random relationships, 10^-9 relative for rates and single precision for reflectivities; monotony from one number to the next."),
 "C19": ("TLA+ raster machine, TLC; trace validation of the colour function's calls", "Every painting order in the model; recorded renderings of small volumes as traces; parsed composites of real size with all layers."),
 "C20": ("TLA+ colour scales in fixed point, TLC; colours compared", "Predefined and random scales with six compression functions at thousands of positions; one unit of rounding per channel is allowed."),
 "C21": ("TLA+ converter state machine, TLC; every behaviour replayed on the built program", "All calls with good and bad files and all kinds of outputs; pictures of real size compared pixel by pixel. Places of border and mesh are taken through the library's projection, which C16 and C17 decide."),
 "C22": ("TLA+ projection in fixed point and catalogue; resolutions compared", "Every stored resolution of every grid, distances between random places, local products, dummies."),
}
NOT_APPLICABLE = {}

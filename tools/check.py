#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the library with the TLA+
specification in spec/ and conformance of the code in /repo to it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rv


def trace_cfg(judged):
    return """SPECIFICATION TraceSpec
CONSTANT Inputs <- Lines
CONSTANT FileOf <- LineFile
CONSTANT Judged = {%s}
INVARIANT Along
VIEW TraceView
CHECK_DEADLOCK TRUE
""" % ", ".join('"%s"' % j for j in judged)


ALL = ["product", "unit", "times", "version", "dims", "cells", "layers", "data", "proj", "res", "reject"]
NOCELLS = [a for a in ALL if a not in ("cells", "layers", "data")]


def model(c, module="MCDecoder", cfg=None, workers=2, **kw):
    c.tlc(module, cfg or module + ".cfg", workers=workers, what="model " + (cfg or module), **kw)


def record_and_validate(c, tables, cmd, name, judged, workers=3, module="TraceDecoder", cfg=None):
    """Records executions of the real code (cmd writes them to its last argument) and validates them."""
    out = c.path(name + ".ndjson")
    st = c.harness(cmd + [out], "recording " + name)
    c.traces_of(module, cfg or trace_cfg(judged), out, sum(s.get("recorded", 0) for s in st), name, workers=workers, judged=judged)
    try:
        with open(out) as f:
            line = f.readline()
        if len(line) < 3000:
            import json
            c.sample(json.loads(line), "first trace of " + name)
    finally:
        os.unlink(out)


def family(c, tables, fam, judged, n, seeds=None, workers=3):
    for s in seeds or [c.seed]:
        record_and_validate(c, tables, ["drive", fam, tables, s, n], "%s-%d" % (fam, s), judged, workers=workers)


def prove(c, *modules):
    return [lambda m=m: c.prove(m) for m in modules] if c.thorough else []


def decoder_behaviours(c, aspects):
    g = c.scenarios("GenDecoder", "GenDecoder.cfg", workers=3)
    c.harness(["replay-decoder", g["path"], ",".join(aspects)], "replay of decoder behaviours")


def header_behaviours(c, cfg, aspects, workers=4):
    g = c.scenarios("MCHeader", cfg, name=cfg, workers=workers)
    c.harness(["replay-decoder", g["path"], ",".join(aspects)], "replay of headers " + cfg)
    os.unlink(g["path"])


def seeds(c, n):
    return [c.seed + 1000 * i for i in range(n)]


# -- the properties ------------------------------------------------------------

def c01(c, enc="one"):
    t = c.tables()
    j = ["dims", "cells", "data"]
    c.parallel(
        lambda: model(c),
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), enc, "dims,cells,data"], "parses by several goroutines"),
        lambda: c.harness(["codes", t, enc], "all cell codes", counts=("frames",)),
        lambda: c.harness(["big", t, enc, c.seed, c.tier], "frames of real size", counts=("frames",)),
        lambda: family(c, t, enc, j, c.q(1200, 5000), seeds(c, c.q(1, 6))),
        lambda: decoder_behaviours(c, j),
        *prove(c, "CodecProof"),
    )


def c02(c):
    c01(c, "two")


def c03(c):
    t = c.tables()
    j = ["dims", "cells", "data", "reject"]

    def rows():
        g = c.scenarios("MCRunlength", c.q("MCRunlength.cfg", "MCRunlengthDeep.cfg"), workers=3)
        c.harness(["replay-rows", g["path"]], "replay of rows")
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "run", "dims,cells,data"], "parses by several goroutines"),
        lambda: model(c),
        rows,
        lambda: family(c, t, "run", j, c.q(1500, 5000), seeds(c, c.q(1, 6))),
        lambda: record_and_validate(c, t, ["rows", t, c.seed, c.q(60, 600)], "rows", [], module="TraceRows", cfg="TraceRows.cfg"),
        lambda: decoder_behaviours(c, j),
        *prove(c, "CodecProof"),
    )


def c04(c):
    t = c.tables()
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "reject", "outcome"], "parses by several goroutines"),
        lambda: model(c),
        lambda: decoder_behaviours(c, ["reject"]),
        lambda: header_behaviours(c, c.q("MCHeaderB.cfg", "MCHeaderBDeep.cfg"), ["reject"], 2),
        lambda: family(c, t, "reject", ["reject"], c.q(3000, 12000), seeds(c, c.q(1, 6))),
        lambda: record_and_validate(c, t, ["cuts", t, c.seed, c.q(18, 120)], "cuts", ["reject"]),
        lambda: record_and_validate(c, t, ["fuzz", t, c.seed, c.q(6000, 80000)], "fuzz", ["reject"]),
        *prove(c, "DecoderProof"),
    )


def c05(c):
    t = c.tables()
    c.parallel(
        lambda: model(c),
        lambda: c.harness(["fuzz", t, c.seed, c.q(250000, 4000000), "-"], "damaged files"),
        lambda: c.harness(["memory"], "impossible dimensions"),
        lambda: c.harness(["long"], "files with very long parts"),
        lambda: c.harness(["fuzz-archives", t, c.seed, c.q(6000, 100000)], "damaged archives"),
        lambda: record_and_validate(c, t, ["fuzz", t, c.seed + 77, c.q(6000, 60000)], "fuzz", []),
        lambda: decoder_behaviours(c, []),
    )


def c06(c):
    t = c.tables()
    c.attribute = "frame"
    c.parallel(
        lambda: model(c),
        lambda: decoder_behaviours(c, ALL),
        lambda: family(c, t, "chunk", ALL, c.q(2500, 10000), seeds(c, c.q(1, 6))),
        lambda: record_and_validate(c, t, ["sources", t, c.seed, c.q(350, 4000)], "sources", ALL),
        lambda: c.harness(["pauses", t, c.seed, 300, c.q(8, 45)], "sources that take their time"),
        lambda: family(c, t, "mixed", ALL, c.q(1500, 10000), seeds(c, c.q(1, 4))),
        lambda: family(c, t, "local", ALL, c.q(5, 60), workers=2),
        *prove(c, "DecoderProof"),
    )


def c07(c):
    t = c.tables()
    j = ["times", "reject"]

    def dates():
        g = c.scenarios("Calendar", c.q("Calendar.cfg", "CalendarDeep.cfg"), workers=3)
        c.harness(["replay-dates", g["path"]], "replay of dates")

    def intervals():
        for s in seeds(c, c.q(2, 30)):
            c.harness(["labels", t, s, "times"], "intervals of all labels")
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "times", "times"], "parses by several goroutines"),
        dates,
        intervals,
        lambda: family(c, t, "times", j, c.q(3000, 10000), seeds(c, c.q(1, 6))),
        lambda: header_behaviours(c, "MCHeaderB.cfg", j, 2),
    )


def c08(c):
    t = c.tables()
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "fields,mixed", "unit,times,dims,cells,data"], "parses by several goroutines"),
        lambda: header_behaviours(c, c.q("MCHeader.cfg", "MCHeaderDeep.cfg"), ALL, 3),
        lambda: header_behaviours(c, c.q("MCHeaderLong.cfg", "MCHeaderLongDeep.cfg"), ALL, 2),
        lambda: header_behaviours(c, c.q("MCHeaderB.cfg", "MCHeaderBDeep.cfg"), ALL, 3),
        lambda: family(c, t, "fields", ALL, c.q(3000, 10000), seeds(c, c.q(1, 8))),
        lambda: record_and_validate(c, t, ["fuzz", t, c.seed + 99, c.q(5000, 60000)], "fuzz", NOCELLS),
    )


def c09(c):
    t = c.tables()
    j = ["dims", "reject", "data"]
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "dims,mixed", "dims"], "parses by several goroutines"),
        lambda: model(c),
        lambda: header_behaviours(c, "MCHeaderB.cfg", j, 2),
        lambda: family(c, t, "dims", j, c.q(2000, 6000), seeds(c, c.q(1, 6))),
        lambda: family(c, t, "reject", j, c.q(1500, 6000), seeds(c, c.q(1, 4))),
        lambda: c.harness(["layouts", t, c.seed, c.q(2, 12), "layers"], "local products"),
        lambda: c.harness(["big", t, "one", c.seed, c.tier], "frames of real size", counts=("frames",)),
    )


def c10(c):
    t = c.tables()
    j = ["dims", "layers", "data"]
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "mixed,run", "dims,data"], "parses by several goroutines"),
        lambda: model(c),
        lambda: c.harness(["layouts", t, c.seed, c.q(4, 30), "layers"], "local products"),
        lambda: c.harness(["same0", t, c.seed, c.q(600, 6000)], "layer 0 and the two-dimensional data"),
        lambda: family(c, t, "local", j, c.q(7, 80), workers=3),
        lambda: family(c, t, "mixed", j, c.q(1500, 8000), seeds(c, c.q(1, 3))),
        *prove(c, "CodecProof"),
    )


def c11(c):
    t = c.tables()
    for s in seeds(c, c.q(1, 18)):
        record_and_validate(c, t, ["points", t, s, 400], "points-%d" % s, [], module="TracePoint", cfg="TracePoint.cfg", workers=8)


def c12(c):
    t = c.tables()
    j = ["product", "unit", "cells"]

    def lab():
        for s in seeds(c, c.q(4, 60)):
            c.harness(["labels", t, s, "unit"], "all labels")
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(200000, 2000000), "mixed,fields", "unit"], "parses by several goroutines"),
        lambda: model(c),
        lab,
        lambda: c.harness(["layouts", t, c.seed, c.q(1, 4), "unit"], "units of local products"),
        lambda: family(c, t, "mixed", j, c.q(2500, 10000), seeds(c, c.q(1, 5))),
        lambda: decoder_behaviours(c, j),
    )


def c13(c):
    t = c.tables()

    def behaviours(cfg, simulate=None):
        g = c.scenarios("Archive", cfg, name=cfg, workers=2, simulate=simulate)
        c.harness(["replay-archives", g["path"], t, c.seed], "replay of archives " + cfg)

    def recorded():
        for s in seeds(c, c.q(1, 6)):
            record_and_validate(c, t, ["archives", t, s, c.q(2500, 8000)], "archives-%d" % s, [], module="TraceArchive", cfg="TraceArchive.cfg", workers=4)
    c.parallel(
        lambda: model(c, "Archive"),
        lambda: behaviours(c.q("GenArchive.cfg", "GenArchiveDeep.cfg")),
        lambda: behaviours(c.q("GenArchiveFaults.cfg", "GenArchiveFaultsDeep.cfg")),
        lambda: behaviours("GenArchiveFolders.cfg"),
        lambda: c.harness(["many", c.seed, c.q("260,300,1500", "257,300,1500,4000,20000")], "archives of very many members"),
        lambda: c.harness(["heavy", c.seed, c.q(30, 160)], "archives of many megabytes"),
        lambda: behaviours("ArchiveLong.cfg", (c.q(50, 1200), 90)),
        lambda: c.harness(["damaged", t, c.seed, c.q(32, 250), c.q(400, 2000)], "truncated and damaged archives"),
        recorded,
        *prove(c, "ArchiveProof"),
    )


def c14(c):
    t = c.tables()
    c.attribute = "input"

    def interleaved(cfg):
        g = c.scenarios("Sessions", cfg, name=cfg, workers=2)
        c.harness(["sessions", g["path"], c.seed], "replay of interleavings " + cfg)

    def races():
        b = c.path("radverif-race")
        rv.build(b, race=True)
        e = {"GORACE": "halt_on_error=1 exitcode=66"}
        c.harness(["histories", t, c.seed, c.q(120, 2000), "concurrent", "-"], "concurrent parses, race detector", binary=b, env=e)
        c.harness(["shared", t, c.seed, c.q(18, 200)], "shared composites, race detector", binary=b, env=e)

    def clients():
        g = c.scenarios("Client", "ClientLong.cfg", name="histories", workers=2, simulate=(c.q(60, 1500), 150))
        c.harness(["client", g["path"], c.seed], "histories of calls")
        g = c.scenarios("Client", c.q("ClientShort.cfg", "ClientShortDeep.cfg"), name="short histories", workers=2)
        c.harness(["client", g["path"], c.seed], "all short histories of calls")

    def hist(mode):
        for s in seeds(c, c.q(1, 5)):
            record_and_validate(c, t, ["histories", t, s, c.q(120, 400), mode], "%s-%d" % (mode, s), ALL, workers=3)
    c.parallel(
        lambda: c.harness(["together", t, c.seed, c.q(400000, 4000000), "mixed,times,run,one,two,reject", "all"], "parses by several goroutines"),
        lambda: interleaved("Sessions.cfg"),
        lambda: interleaved(c.q("Sessions3.cfg", "Sessions3Deep.cfg")),
        lambda: interleaved(c.q("SessionsBreak.cfg", "SessionsBreakDeep.cfg")),
        lambda: c.harness(["nested", t, c.seed, c.q(300, 6000)], "parses within parses"),
        lambda: hist("sequential"),
        lambda: hist("concurrent"),
        lambda: model(c, "Client", c.q("Client.cfg", "ClientDeep.cfg")),
        clients,
        lambda: c.harness(["shared", t, c.seed, c.q(60, 600)], "shared composites"),
        lambda: c.harness(["dropped", t, c.seed, c.q(400, 6000)], "parts of composites kept"),
        lambda: c.harness(["held", t, c.seed, c.q(6000, 60000)], "composites held for long"),
        lambda: c.harness(["apart", t, c.seed, c.q(4, 100)], "composites written into"),
        races,
    )


def grid_table(c, cfg="GenGrid.cfg"):
    return c.scenarios("GenGrid", cfg, name="grids", workers=6)["path"]


def places(c, n, name):
    """Random coordinates, in the format of MCProjection."""
    import json, random
    r = random.Random("%s-%d" % (name, c.seed))

    def coord(lo, hi):
        return [r.randint(lo, hi - 1), r.randint(0, 9999), r.randint(0, 9999)]
    lats = [coord(45, 57) for _ in range(n // 3)] + [coord(-82, 90) for _ in range(n - n // 3)]
    lons = [coord(0, 20) for _ in range(n // 3)] + [coord(-180, 360) if i % 4 else coord(-1080, 1080) for i in range(n - n // 3)]
    # many turns
    lons += [[360 * r.choice([-1, 1]) * r.randint(4, 9) + r.randint(0, 20), r.randint(0, 9999), 0], [360 * r.choice([-1, 1]) * r.randint(10, 250) + r.randint(-180, 180), r.randint(0, 9999), 0]]
    lats += [[-82, 0, 0], [-45, 0, 0], [90, 0, 0], [60, 0, 0], [0, 0, 0], [54, 5877, 0], [89, 9999, 9999], [-1, 9999, 9999]]
    lons += [[370, 0, 0], [-350, 0, 0], [180, 0, 0], [360, 0, 0], [10, 0, 0], [0, 0, 0], [-1, 9999, 0], [100, 0, 0], [-80, 0, 0], [190, 0, 0], [9, 9999, 9999], [20, 0, 0], [-170, 0, 0], [-180, 0, 0]]
    p = c.path(name + ".json")
    with open(p, "w") as f:
        json.dump({"lats": lats, "lons": lons}, f)
    return p


def projected(c, method, n):
    g = grid_table(c)
    p = places(c, n, "places")
    a = c.scenarios("MCProjection", "MCProjection.cfg", env={"PLACES": p}, workers=8)
    c.harness(["projections", a["path"], p, g, c.seed, method], "projected coordinates, " + method)
    c.harness(["dummies", g, c.seed, c.q(400000, 4000000), "res" if method == "any" else "place"], "dummies by several goroutines")


def c15(c):
    t = c.tables()
    g = grid_table(c, c.q("GenGrid.cfg", "GenGridDeep.cfg"))
    c.harness(["dummies", g, c.seed, c.q(400000, 4000000), "proj"], "dummies by several goroutines")
    c.harness(["grids", g, t, c.seed, c.q(1600, 6000)], "sweep of the dimensions")
    j = ["proj", "dims", "version"]
    c.parallel(lambda: family(c, t, "mixed", j, c.q(1500, 8000)), lambda: family(c, t, "dims", j, c.q(1000, 6000)))


def c16(c):
    projected(c, "sphere", c.q(60, 300))


def c17(c):
    projected(c, "ellipsoid", c.q(60, 400))


def c18(c):
    import json, random
    r = random.Random("rain-%d" % c.seed)

    def sh(lo, hi, step=1):     # multiples of 1/256 have eight decimals at most
        x = r.randint(lo * 256, hi * 256 - 1)
        f = (x % 256) * 390625
        return [x // 256, f // 10000, f % 10000]
    rels = [{"name": n, "a": [0, 0, 0], "b": [0, 0, 0]} for n in ("Aniol80", "Doelling98", "JossWaldvogel70", "MarshallPalmer55")]
    for a, b in ((256, 1.42), (1, 1), (1, 2), (1000, 1), (300, 1.5), (200, 1.6), (31, 1.71), (486, 1.37)):
        rels.append({"name": "", "a": [a, 0, 0], "b": [int(b), round((b % 1) * 10000), 0]})
    for _ in range(c.q(40, 300)):
        rels.append({"name": "", "a": [r.choice([r.randint(0, 9), r.randint(10, 999), r.randint(1000, 90000)]), r.randint(1000, 9999), r.randint(0, 9999)],
                     "b": [r.randint(0, 4), r.randint(3000, 9999), r.randint(0, 9999)]})
    # families with the same factor or the same exponent, far apart and hardly different
    for i in range(c.q(3, 12)):
        a = [r.randint(10, 900), 0, 0]
        b = [1, r.randint(1000, 9000), 0]
        for k in range(3):
            rels.append({"name": "", "a": a, "b": [1, (b[1] + 350 * (k + 1)) % 10000, 0]})
            rels.append({"name": "", "a": [a[0] + 1 + 7 * k, 0, 0], "b": b})
        rels.append({"name": "", "a": [a[0], 40, 0], "b": b})
        rels.append({"name": "", "a": a, "b": [1, b[1] + 40, 0]})
        rels.append({"name": "", "a": a, "b": b})
    r.shuffle(rels)
    dbz = [[n, h, 0] for n in range(-33, 96, 8) for h in (0, 5000)] + [[0, 0, 0], [-1, 0, 0]] + [sh(-33, 100) for _ in range(c.q(60, 200))] + [sh(-300, 400) for _ in range(c.q(10, 60))]
    rates = [{"m": [1, 0, 0], "k": k} for k in range(-8, 9)] + [{"m": [0, 5000, 0], "k": 0}, {"m": [5, 0, 0], "k": 0}]
    rates += [{"m": [r.randint(0, 150), r.randint(1, 9999), r.randint(0, 9999)], "k": r.choice([0, 0, 0, -2, -9, 3, 12])} for _ in range(c.q(70, 250))]
    p = c.path("rain.json")
    with open(p, "w") as f:
        json.dump({"rels": rels, "dbz": dbz, "rates": rates}, f)
    a = c.scenarios("MCRain", "MCRain.cfg", env={"RAIN": p}, workers=8)
    c.harness(["rain", a["path"], p, c.seed, c.q(20000, 200000)], "conversions of rate and reflectivity")


def c19(c):
    t = c.tables()

    def recorded():
        for s in seeds(c, c.q(1, 6)):
            record_and_validate(c, t, ["raster", s, c.q(6000, 20000)], "raster-%d" % s, [], module="TraceRaster", cfg="TraceRaster.cfg", workers=5)
    c.parallel(
        lambda: model(c, "MCRaster"),
        recorded,
        lambda: c.harness(["volumes", t, c.seed, c.q(60, 600)], "layers of composites of real size"),
    )


PREDEFINED = {"HeatmapReflectivityShort": (5, 75), "HeatmapReflectivity": (1, 75), "HeatmapReflectivityWide": (-32.5, 75), "HeatmapAccumulatedHour": (0.1, 100),
              "HeatmapAccumulatedDay": (0.1, 200), "HeatmapRadialVelocity": (-31.5, 31.5), "GraymapLinear": (0, 409.5), "GraymapLinearWide": (0, 4095)}


def dec(x):
    """A number with at most eight decimals for the specification: the floor, then two groups of four digits."""
    n = round(x * 10 ** 8)
    return [n // 10 ** 8, n // 10 ** 4 % 10 ** 4, n % 10 ** 4]


def c20(c):
    import json, random
    r = random.Random("palette-%d" % c.seed)

    def values(lo, hi, n, signs):
        v = [lo, hi, 0, 1, -1, lo - 0.0001, hi + 0.0001, hi * 2, 5000, -5000, 0.00010001, 1.00000001, -1.00000001]
        for _ in range(n):
            v.append(r.choice([r.uniform(lo, hi), r.uniform(lo, lo + (hi - lo) / 20), r.uniform(lo - 3, hi + 3)]))
        if signs:
            v += [-x for x in v]
        return [dec(x) for x in v]
    qs = []
    for name, (lo, hi) in PREDEFINED.items():
        qs.append({"name": name, "kind": "", "comp": "", "min": dec(0), "max": dec(0), "values": values(lo, hi, c.q(250, 1500), "Radial" in name)})
    for i in range(c.q(60, 400)):
        kind, comp = ["heat", "gray", "radial"][i % 3], ["id", "log"][i // 3 % 2]
        if kind == "radial":
            lo, hi = -round(r.uniform(1.2, 90), r.randint(0, 8)) - 1, round(r.uniform(1.2, 90), r.randint(0, 8)) + 1
        elif comp == "log":
            lo = round(r.uniform(0.001, 3), r.randint(3, 8))
            hi = lo + round(r.uniform(1, 900), r.randint(0, 8))
        else:
            lo = round(r.uniform(-100, 100), r.randint(0, 8))
            hi = lo + round(r.uniform(0.5, 5000), r.randint(0, 8)) + 1
        qs.append({"name": "", "kind": kind, "comp": comp, "min": dec(lo), "max": dec(hi), "values": values(lo, hi, c.q(40, 150), kind == "radial")})
    p = c.path("scales.json")
    with open(p, "w") as f:
        json.dump(qs, f)
    a = c.scenarios("MCPalette", "MCPalette.cfg", env={"SCALES": p}, workers=8)
    c.harness(["palettes", a["path"], p, c.seed, c.q(3000, 30000)], "colours")


def picture_questions(c):
    """Scales of the converter and the values of cell codes."""
    import random
    r = random.Random("pictures-%d" % c.seed)
    qs = []
    for unit, name, kind, lo, hi, comp, precs, edges, top in (
            ("mm", "", "heat", 0.1, 100, "log", (0, -1, -2), [0.1], 100), ("mm", "", "heat", 0.1, 200, "log", (0, -1, -2), [0.1], 200),
            ("mm", "", "heat", 0.1, 400, "log", (1, 0, -1), [0.1], 400), ("dBZ", "HeatmapReflectivity", "", 0, 0, "", (0, -1), [1], 0),
            ("km", "", "gray", 0, 15, "id", (0, -1), [], 0), ("m/s", "HeatmapRadialVelocity", "", 0, 0, "", (0, -1, -2), [1, -1], 0)):
        for prec in precs:
            for enc in ("one", "two"):
                codes, values = [], []
                for code in range(256) if enc == "one" else [r.choice([r.randint(0, 4095), r.randint(0, 300)]) + r.choice([0, 0, 16384]) for _ in range(160)]:
                    m = code if code < 4096 else -(code - 16384)
                    if enc == "one" and code == 250:
                        continue
                    v = m * 10.0 ** prec
                    if unit == "dBZ":
                        v = v / 2 - 32.5
                    # single precision can fall to either side of an edge
                    if prec != 0 and any(abs(v - e) < 1e-5 for e in edges):
                        continue
                    codes.append(code)
                    values.append(dec(v))
                nan = [250] if enc == "one" else [8192, 8192 + 4095, 8192 + 16384 + 77]
                qs.append({"name": name, "kind": kind, "comp": comp, "min": dec(lo), "max": dec(hi), "values": values,
                           "unit": unit, "top": top, "prec": prec, "enc": enc, "codes": codes, "nan": nan})
    return qs


def c21(c):
    import json
    t = c.tables()
    prog = c.path("radolan2png")

    def calls():
        g = c.scenarios("MCConverter", "MCConverter.cfg", workers=4)
        os.mkdir(c.path("calls"))
        c.harness(["converts", g["path"], prog, c.path("calls")], "calls of the converter")

    def pictures():
        p = c.path("pictures.json")
        with open(p, "w") as f:
            json.dump(picture_questions(c), f)
        a = c.scenarios("MCPalette", "MCPalette.cfg", env={"SCALES": p}, workers=4)
        os.mkdir(c.path("pictures"))
        c.harness(["pictures", a["path"], p, os.path.join(rv.SPEC, "border.json"), t, grid_table(c), prog, c.path("pictures"), c.seed, c.q(120, 900)], "pictures of real size")
    rv.build(prog, pkg=rv.IMPORT + "/radolan2png")
    os.mkdir(c.path("at-once"))
    c.parallel(calls, pictures, lambda: c.harness(["at-once", prog, c.path("at-once"), c.seed, c.q(4, 40)], "conversions at the same time"))


def c22(c):
    t = c.tables()
    projected(c, "any", 12)
    c.harness(["resolutions", t, c.path("grids.ndjson"), c.seed, c.q(4000, 40000)], "resolutions without projection")
    c.parallel(lambda: family(c, t, "local", ["res", "dims"], c.q(5, 60), workers=2), lambda: family(c, t, "mixed", ["res"], c.q(1500, 8000), workers=2))


PLANS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 100) if "c%02d" % i in globals()}

if __name__ == "__main__":
    sys.exit(rv.main(PLANS))

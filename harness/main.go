// radverif drives the radolan library: it replays behaviours of the TLA+
// specification and records executions for validation against it.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"
)

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	die(err)
	return n
}

func main() {
	// A library that allocates without bound is stopped by its runtime, with a
	// trace, and not by the system. What is needed here is far less.
	if n, err := strconv.ParseUint(os.Getenv("MOST_MEMORY"), 10, 64); err == nil {
		die(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n}))
	}
	if len(os.Args) < 2 {
		die(fmt.Errorf("usage: radverif command args"))
	}
	a := os.Args[2:]
	if n := os.Getenv("MISMATCHES"); n != "" {
		mostMismatches = atoi(n)
	}
	// results must not depend on the local time zone
	zone := os.Getenv("HARNESS_ZONE")
	if zone == "" {
		zone = "Europe/Berlin"
	}
	loc, err := time.LoadLocation(zone)
	die(err)
	time.Local = loc
	switch os.Args[1] {
	case "replay-decoder": // scenarios aspects
		replayDecoder(a[0], strings.Split(a[1], ","))
	case "drive": // family tables seed n out
		drive(a[0], loadTables(a[1]), int64(atoi(a[2])), atoi(a[3]), a[4])
	case "codes": // tables enc
		codes(loadTables(a[0]), a[1])
	case "big": // tables enc seed thorough
		big(loadTables(a[0]), a[1], int64(atoi(a[2])), a[3] == "thorough")
	case "replay-rows": // scenarios
		replayRows(a[0])
	case "replay-dates": // scenarios
		replayDates(a[0])
	case "labels": // tables seed aspects
		labels(loadTables(a[0]), int64(atoi(a[1])), strings.Split(a[2], ","))
	case "rows": // tables seed n out
		rows(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "sources": // tables seed n out
		sources(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "pauses": // tables seed n seconds
		pauses(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), time.Duration(atoi(a[3]))*time.Second)
	case "layouts": // tables seed rounds aspect
		layouts(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "same0": // tables seed n
		same0(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "cuts": // tables seed frames out
		cuts(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "points": // tables seed n out
		points(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "fuzz": // tables seed n out
		fuzz(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "replay-archives": // scenarios tables seed
		replayArchives(a[0], loadTables(a[1]), int64(atoi(a[2])))
	case "damaged": // tables seed archives flips
		damaged(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), atoi(a[3]))
	case "heavy": // seed members
		heavy(int64(atoi(a[0])), atoi(a[1]))
	case "archives": // tables seed n out
		archives(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3])
	case "fuzz-archives": // tables seed n
		fuzzArchives(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "sessions": // scenarios seed
		replaySessions(a[0], int64(atoi(a[1])))
	case "histories": // tables seed n sequential|concurrent out
		histories(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), a[3] == "concurrent", a[4])
	case "shared": // tables seed rounds
		shared(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "apart": // tables seed rounds
		apart(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "held": // tables seed n
		held(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "dropped": // tables seed n
		dropped(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "together": // tables seed n families aspects
		together(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]), strings.Split(a[3], ","), strings.Split(a[4], ","))
	case "nested": // tables seed n
		nested(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "dummies": // grid-table seed n aspect
		dummies(a[0], int64(atoi(a[1])), atoi(a[2]), a[3])
	case "many": // seed sizes
		var sizes []int
		for _, s := range strings.Split(a[1], ",") {
			sizes = append(sizes, atoi(s))
		}
		many(int64(atoi(a[0])), sizes)
	case "long":
		long()
	case "grids": // grid-table tables seed limit
		grids(a[0], loadTables(a[1]), int64(atoi(a[2])), atoi(a[3]))
	case "projections": // answers places grid-table seed sphere|ellipsoid|any
		projections(a[0], a[1], a[2], int64(atoi(a[3])), a[4])
	case "resolutions": // tables grid-table seed n
		plainResolutions(loadTables(a[0]), a[1], int64(atoi(a[2])), atoi(a[3]))
	case "rain": // answers questions seed steps
		rain(a[0], a[1], int64(atoi(a[2])), atoi(a[3]))
	case "raster": // seed n out
		raster(int64(atoi(a[0])), atoi(a[1]), a[2])
	case "volumes": // tables seed n
		volumes(loadTables(a[0]), int64(atoi(a[1])), atoi(a[2]))
	case "palettes": // answers questions seed n
		palettes(a[0], a[1], int64(atoi(a[2])), atoi(a[3]))
	case "converts": // scenarios binary dir
		converts(a[0], a[1], a[2])
	case "pictures": // answers questions border tables grid-table binary dir seed n
		pictures(a[0], a[1], a[2], a[3], a[4], a[5], a[6], int64(atoi(a[7])), atoi(a[8]))
	case "at-once": // binary dir seed rounds
		atOnce(a[0], a[1], int64(atoi(a[2])), atoi(a[3]))
	case "solo":
		solo()
	case "client": // scenarios seed
		client(a[0], int64(atoi(a[1])))
	case "memory":
		memory()
	default:
		die(fmt.Errorf("unknown command %s", os.Args[1]))
	}
	if failures > 0 {
		os.Exit(1)
	}
}

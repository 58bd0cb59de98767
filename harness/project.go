package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"

	"gitlab.cs.fau.de/since/radolan"
)

// Fixed is a number of the specification: base 10000, lowest limb first, the last one is the floor.
type Fixed [6]int64

func (f Fixed) float() float64 {
	v := 0.0
	for _, l := range f[:5] {
		v = (v + float64(l)) / 10000
	}
	return v + float64(f[5])
}

type gridEntry struct {
	Dx      int      `json:"dx"`
	Dy      int      `json:"dy"`
	Grid    string   `json:"grid"`
	Ref     []int    `json:"ref"`
	Methods []string `json:"methods"` // of the versions -1, 0, ..., 12
}

func (g gridEntry) method(version int) string {
	if version < -1 {
		version = -1
	}
	if version > 12 {
		version = 12
	}
	return g.Methods[version+1]
}

type gridTable map[[2]int]gridEntry

var tableLimit int

func loadGrids(path string) (gridTable, int) {
	t := gridTable{}
	limit := 0
	eachLine(path, func(line []byte) {
		var l struct {
			Limit int         `json:"limit"`
			Table []gridEntry `json:"table"`
		}
		die(json.Unmarshal(line, &l))
		limit = l.Limit
		tableLimit = l.Limit
		for _, g := range l.Table {
			t[[2]int{g.Dx, g.Dy}] = g
		}
	})
	return t, limit
}

// checkProjects compares the availability of the projection with the method of the specification.
func checkProjects(c *radolan.Composite, method string, rng *rand.Rand) string {
	if c.HasProjection != (method != "none") {
		return fmt.Sprintf("HasProjection is %v, the method is %s", c.HasProjection, method)
	}
	for i := 0; i < 3; i++ {
		lat, lon := 40+20*rng.Float64(), 20*rng.Float64()
		if i == 2 {
			lat, lon = 180*rng.Float64()-90, 360*rng.Float64()-180
		}
		x, y := place(c, lat, lon)
		if method == "none" && (x == x || y == y) {
			return fmt.Sprintf("Project(%v, %v) = %v, %v without projection", lat, lon, x, y)
		}
		if method != "none" && (x != x || y != y) {
			return fmt.Sprintf("Project(%v, %v) = %v, %v with projection", lat, lon, x, y)
		}
	}
	return ""
}

// methodOf looks a size up. What the table is too small for is halved before, which does not
// change the grid (Doubling).
func methodOf(t gridTable, dx, dy, version int) string {
	for (dx > tableLimit || dy > tableLimit) && dx > 0 && dy > 0 && dx%2 == 0 && dy%2 == 0 {
		dx, dy = dx/2, dy/2
	}
	if g, ok := t[[2]int{dx, dy}]; ok {
		return g.method(version)
	}
	return "none"
}

// grids sweeps the dimensions.
func grids(path string, tb *Tables, seed int64, lim int) {
	t, limit := loadGrids(path)
	var dummies, with int64
	labels := append([]string{"QQ", "", "X", "Dummy"}, tb.Known...)
	check := func(label string, version, dx, dy int, rng *rand.Rand) {
		m := methodOf(t, dx, dy, version)
		c := dummy(label, version, dx, dy)
		atomic.AddInt64(&dummies, 1)
		if m != "none" {
			atomic.AddInt64(&with, 1)
		}
		if c.Dx != dx || c.Dy != dy || c.Product != label || c.Format != version {
			mismatch("dummy", map[string]interface{}{"label": label, "version": version, "dx": dx, "dy": dy})
			return
		}
		if c.HasProjection == (m != "none") && m == "none" && rng.Intn(20) > 0 {
			return
		}
		if s := checkProjects(c, m, rng); s != "" {
			mismatch("projection of a dummy: "+s, map[string]interface{}{"label": label, "version": version, "dx": dx, "dy": dy, "method": m})
		}
	}
	each(lim+1, func(dx int) {
		rng := rand.New(rand.NewSource(seed*7 + int64(dx)))
		for dy := 0; dy <= lim; dy++ {
			check("RX", 3, dx, dy, rng)
			check("SF", 5, dx, dy, rng)
			if rng.Intn(8) == 0 {
				check(labels[rng.Intn(len(labels))], rng.Intn(16)-2, dx, dy, rng)
			}
		}
	})
	// every recognised size in every version with every label, and its neighbours
	rng := rand.New(rand.NewSource(seed))
	for d := range t {
		for v := -3; v <= 14; v++ {
			for _, l := range labels {
				check(l, v, d[0], d[1], rng)
			}
			for _, e := range [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {2, 2}, {-2, -2}} {
				check("RX", v, d[0]+e[0], d[1]+e[1], rng)
			}
			check("RX", v, d[1], d[0], rng)
			check("RX", v, -d[0], -d[1], rng)
			check("RX", v, d[0], -d[1], rng)
			if 3*d[0] <= limit && 3*d[1] <= limit {
				check("RX", v, 3*d[0], 3*d[1], rng)
			}
			if 2*d[0] <= limit && 2*d[1] <= limit {
				check("RX", v, 2*d[0], d[1], rng)
				check("RX", v, d[0], 2*d[1], rng)
			}
		}
	}
	// sizes beyond every table: doubled again and again, and those that only look alike in fewer bits
	for d := range t {
		for _, v := range []int{3, 5, rng.Intn(16) - 2} {
			for k := uint(1); d[0]<<k < 1<<53 && d[1]<<k < 1<<53; k += 1 + uint(rng.Intn(4)) {
				check(labels[rng.Intn(len(labels))], v, d[0]<<k, d[1]<<k, rng)
				check("RX", v, d[0]<<k, d[1]<<(k+1), rng)
				check("RX", v, d[0]<<k+1, d[1]<<k, rng)
			}
			for _, b := range []uint{8, 10, 12, 16, 24, 31, 32, 33, 48, 62, 63} {
				check("RX", v, d[0]+1<<b, d[1], rng)
				check("RX", v, d[0], d[1]+1<<b, rng)
				check("RX", v, d[0]+1<<b, d[1]+1<<b, rng)
			}
		}
	}
	for i := 0; i < 20000; i++ {
		check(labels[rng.Intn(len(labels))], []int{rng.Intn(20) - 4, 1000000, -1000000, 4, 5}[rng.Intn(5)], rng.Intn(limit), rng.Intn(limit), rng)
	}
	// parsed composites
	parsedN := 0
	var sizes [][2]int
	for d := range t {
		if d[0]*d[1] <= 1500*1500 {
			sizes = append(sizes, d, [2]int{d[0] + 1, d[1]}, [2]int{d[0] + 2, d[1] + 2}, [2]int{d[1], d[0]})
		}
	}
	sizes = append(sizes, [2]int{200, 200}, [2]int{1, 1}, [2]int{45, 55}, [2]int{450, 900}, [2]int{1800, 9}, [2]int{9, 11}, [2]int{100, 100}, [2]int{460, 920})
	var mu sync.Mutex
	each(len(sizes)*3, func(i int) {
		d := sizes[i/3]
		rng := rand.New(rand.NewSource(seed*104729 + int64(i)))
		version := []int{3, 5, rng.Intn(16) - 6}[i%3]
		label := pick(rng, append([]string{"QQ"}, tb.Known...))
		w, h := d[0], d[1]
		body := make([]byte, w*h)
		rng.Read(body)
		vs := fmt.Sprintf("VS%2d", version)
		if i%5 == 0 {
			vs, version = "", 0
		}
		file := makeVaried(rng, label, vs+fmt.Sprintf("GP%4dx%4d", h, w), body)
		c, err, bad := parseGuarded(bytes.NewReader(file), patience())
		mu.Lock()
		defer mu.Unlock()
		parsedN++
		m := methodOf(t, w, h, version)
		info := map[string]interface{}{"label": label, "version": version, "dx": w, "dy": h, "method": m}
		if bad != "" || classify(err) == "err" {
			info["got"] = bad + fmt.Sprint(err)
			mismatch("not parsed", info)
			return
		}
		if s := checkProjects(c, m, rng); s != "" {
			mismatch("projection of a composite: "+s, info)
		}
	})
	stat(map[string]interface{}{"replayed": parsedN + int(dummies), "dummies": dummies, "with_projection": with, "parsed": parsedN, "recognised_sizes": len(t)})
}

// projections compares projected coordinates and resolutions with the specification's.
func projections(path, places, gridPath string, seed int64, method string) {
	type coord [3]int64
	var pl struct {
		Lats, Lons []coord
	}
	b, err := os.ReadFile(places)
	die(err)
	die(json.Unmarshal(b, &pl))
	deg := func(c coord) float64 { return float64(c[0]) + (float64(c[1])*10000+float64(c[2]))/1e8 }
	type cal struct {
		Grid    string   `json:"grid"`
		Method  string   `json:"method"`
		Size    []int    `json:"size"`
		Corners [4]Fixed `json:"corners"`
		Rx      Fixed    `json:"rx"`
		Ry      Fixed    `json:"ry"`
	}
	type answer struct {
		Grid   string     `json:"grid"`
		Method string     `json:"method"`
		Lat    int        `json:"lat"`
		XY     [][2]Fixed `json:"xy"`
		Cal    []cal      `json:"cal"`
	}
	cals := map[string]cal{}
	var answers []answer
	eachLine(path, func(line []byte) {
		var a answer
		die(json.Unmarshal(line, &a))
		for _, c := range a.Cal {
			cals[c.Grid+"/"+c.Method] = c
		}
		if a.Lat > 0 {
			answers = append(answers, a)
		}
	})
	t, _ := loadGrids(gridPath)
	// the stored sizes of a grid with their composites
	type stored struct {
		g    gridEntry
		v    int
		c    *radolan.Composite
		kind string
	}
	rng := rand.New(rand.NewSource(seed * 613))
	all := map[string][]stored{}
	for _, g := range t {
		for _, v := range []int{-1, 0, 3, 4, 5, 6, 12} {
			m := g.method(v)
			if m == "none" || (method != "any" && m != method) {
				continue
			}
			key := g.Grid + "/" + m
			label := pick(rng, []string{"RX", "FX", "QQ", "WX", "EX", "PG"})
			all[key] = append(all[key], stored{g, v, dummy(label, v, g.Dx, g.Dy), "dummy"})
			if g.Dx <= 460 && g.Dy <= 460 || (v == 3 || v == 5) && g.Dx <= 1400 {
				body := make([]byte, g.Dx*g.Dy)
				rng.Read(body)
				post := fmt.Sprintf("VS%2d", v)
				if rng.Intn(2) == 0 {
					post += fmt.Sprintf("E%+03d", rng.Intn(5)-2)
				}
				if rng.Intn(2) == 0 {
					post += fmt.Sprintf("INT%4d", []int{0, 5, 10, 60, 1440}[rng.Intn(5)])
				}
				post += fmt.Sprintf("GP%4dx%4d", g.Dy, g.Dx)
				if rng.Intn(3) > 0 {
					post += fmt.Sprintf("VV%4d", []int{0, 5, 60, 120, 1440}[rng.Intn(5)])
				}
				if rng.Intn(2) == 0 {
					post += "MF 00000002MS 13<boo,ros,emd>"
				}
				file := makeVaried(rng, label, post, body)
				c, err, bad := parseGuarded(bytes.NewReader(file), patience())
				if bad != "" || classify(err) == "err" {
					mismatch("not parsed", map[string]interface{}{"dx": g.Dx, "dy": g.Dy, "version": v, "got": bad + fmt.Sprint(err)})
					continue
				}
				all[key] = append(all[key], stored{g, v, c, "parsed"})
			}
		}
	}
	close := func(got, want, scale float64) bool {
		return math.Abs(got-want) <= 1e-7*scale+1e-10*math.Abs(want)
	}
	points, composites := 0, 0
	// resolutions and corners
	for key, ss := range all {
		c := cals[key]
		if c.Grid == "" {
			die(fmt.Errorf("no calibration of %s", key))
		}
		for _, s := range ss {
			composites++
			sx, sy := float64(s.g.Dx)/float64(c.Size[0]), float64(s.g.Dy)/float64(c.Size[1])
			info := map[string]interface{}{"grid": key, "dx": s.g.Dx, "dy": s.g.Dy, "version": s.v, "kind": s.kind}
			if wx, wy := c.Rx.float()/sx, c.Ry.float()/sy; method == "any" && (math.Abs(s.c.Rx-wx) > 1e-9*wx || math.Abs(s.c.Ry-wy) > 1e-9*wy) {
				info["got"], info["want"] = []float64{s.c.Rx, s.c.Ry}, []float64{wx, wy}
				mismatch("resolution", info)
				continue
			}
			if method == "any" {
				continue
			}
			x, y := place(s.c, c.Corners[0].float(), c.Corners[1].float())
			if !close(x, 0, sx) || !close(y, 0, sy) {
				info["got"] = []float64{x, y}
				mismatch("north-west corner", info)
			}
			x, y = place(s.c, c.Corners[2].float(), c.Corners[3].float())
			if !close(x, float64(s.g.Dx), sx) || !close(y, float64(s.g.Dy), sy) {
				info["got"] = []float64{x, y}
				mismatch("south-east corner", info)
			}
		}
	}
	if method != "any" {
		// what is no number has no place
		for key, ss := range all {
			for _, s := range ss {
				for i, c := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
					for j, d := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 10, 60 * rng.Float64(), 0} {
						lat, lon := c, d
						if rng.Intn(2) == 0 {
							lat, lon = d, c
						}
						x, y := place(s.c, lat, lon)
						points++
						if x == x || y == y {
							mismatch("a place for what is no number", map[string]interface{}{"grid": key, "dx": s.g.Dx, "dy": s.g.Dy, "version": s.v, "kind": s.kind, "lat": fmt.Sprint(lat), "lon": fmt.Sprint(lon), "got": fmt.Sprint(x, y), "case": i*6 + j})
						}
					}
				}
			}
		}
		for _, a := range answers {
			key := a.Grid + "/" + a.Method
			c := cals[key]
			for _, s := range all[key] {
				sx, sy := float64(s.g.Dx)/float64(c.Size[0]), float64(s.g.Dy)/float64(c.Size[1])
				for j, xy := range a.XY {
					lat, lon := deg(pl.Lats[a.Lat-1]), deg(pl.Lons[j])
					x, y := place(s.c, lat, lon)
					wx, wy := xy[0].float()*sx, xy[1].float()*sy
					points++
					if !close(x, wx, sx) || !close(y, wy, sy) {
						mismatch("projected coordinates", map[string]interface{}{"grid": key, "dx": s.g.Dx, "dy": s.g.Dy, "version": s.v, "kind": s.kind, "lat": lat, "lon": lon, "got": fmt.Sprint(x, y), "want": fmt.Sprint(wx, wy)})
						break
					}
				}
			}
		}
	} else {
		// distances do not depend on the stored resolution
		for key, ss := range all {
			for i := 0; i < 40; i++ {
				la, lo, lb, ob := 46+9*rng.Float64(), 4+12*rng.Float64(), 46+9*rng.Float64(), 4+12*rng.Float64()
				dist := func(c *radolan.Composite) float64 {
					ax, ay := place(c, la, lo)
					bx, by := place(c, lb, ob)
					return math.Hypot((bx-ax)*c.Rx, (by-ay)*c.Ry)
				}
				want := dist(ss[0].c)
				for _, s := range ss {
					points++
					if d := dist(s.c); math.Abs(d-want) > 1e-7+1e-9*want || d != d {
						mismatch("distance", map[string]interface{}{"grid": key, "dx": s.g.Dx, "dy": s.g.Dy, "version": s.v, "from": []float64{la, lo}, "to": []float64{lb, ob}, "got": fmt.Sprint(d), "want": fmt.Sprint(want)})
						break
					}
				}
			}
		}
	}
	if composites == 0 || points == 0 {
		die(fmt.Errorf("nothing compared"))
	}
	stat(map[string]interface{}{"replayed": points, "composites": composites, "sample": map[string]interface{}{"lats": pl.Lats[:3], "lons": pl.Lons[:3], "answer": answers[0].XY[:2], "grid": answers[0].Grid}})
}

// resolutions of composites without projection.
func plainResolutions(t *Tables, gridPath string, seed int64, n int) {
	gt, _ := loadGrids(gridPath)
	kinds := map[string]int{}
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(seed*514229 + int64(i)))
		label := pick(rng, t.Known)
		explicit := !t.local[label] || rng.Intn(2) == 0
		w, h := 1+rng.Intn(60), 1+rng.Intn(60)
		if rng.Intn(3) == 0 {
			w, h = 200, []int{200, 224, 2400}[rng.Intn(3)]
		}
		version := rng.Intn(12) - 4
		post := fmt.Sprintf("VS%2d", version)
		want := 0
		if explicit {
			post += []string{fmt.Sprintf("GP%4dx%4d", h, w), fmt.Sprintf("BG%03d%03d", h%1000, w)}[rng.Intn(2)]
			if post[len(post)-8:len(post)-6] == "BG" {
				h %= 1000
			}
			if h == 0 {
				continue
			}
		} else {
			l := t.Layouts[label]
			w, h, want = l.Px, l.Py, l.Res
		}
		file := makeVaried(rng, label, post, make([]byte, w*h))
		c, err, bad := parseGuarded(newSource(rng, file), patience())
		info := map[string]interface{}{"label": label, "post": post, "w": w, "h": h}
		if bad != "" || classify(err) == "err" {
			info["got"] = bad + fmt.Sprint(err)
			mismatch("not parsed", info)
			continue
		}
		if methodOf(gt, c.Dx, c.Dy, version) != "none" {
			continue
		}
		kinds[fmt.Sprint("km ", want)]++
		if resClass(c.Rx, c.Ry) != want {
			info["got"], info["want"] = fmt.Sprint(c.Rx, c.Ry), want
			mismatch("resolution without projection", info)
		}
	}
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(seed*433494437 + int64(i)))
		w, h, v := rng.Intn(2000), rng.Intn(2000), rng.Intn(9)
		if i%7 == 0 {
			w, h, v = []int{900, 920, 450, 1400, 115}[rng.Intn(5)], 900, 5
		}
		if methodOf(gt, w, h, v) != "none" {
			continue
		}
		c := dummy("RX", v, w, h)
		kinds["dummy"]++
		if resClass(c.Rx, c.Ry) != 0 {
			mismatch("resolution of a dummy", map[string]interface{}{"w": w, "h": h, "version": v, "got": fmt.Sprint(c.Rx, c.Ry)})
		}
	}
	stat(map[string]interface{}{"replayed": 2 * n, "kinds": kinds})
}

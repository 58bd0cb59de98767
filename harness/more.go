package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// each runs f for 0..n-1 on all processors.
func each(n int, f func(i int)) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// replayRows decodes every row of the automaton's behaviours in the library.
func replayRows(path string) {
	type scen struct {
		W     int   `json:"w"`
		Row   []int `json:"row"`
		Ok    bool  `json:"ok"`
		Cells []int `json:"cells"`
	}
	n, good := 0, 0
	var sample interface{}
	s := Scale{-1, false}
	eachLine(path, func(line []byte) {
		var sc scen
		die(json.Unmarshal(line, &sc))
		// the row stands above or below a known one
		known := []byte{20, 16, 0x12}
		row := intsToBytes(sc.Row)
		at := n % 2
		rows := [][]byte{row, known}
		if at == 1 {
			rows = [][]byte{known, row}
		}
		body := append(append(append([]byte{}, rows[0]...), 10), append(append([]byte{}, rows[1]...), 10)...)
		post := fmt.Sprintf("VS 3LV 3  1.0-31.5  7.0BG%3d%3d", 2, sc.W)
		file := makeVaried(varied(sc.Row, sc.W, n), "PG", post, body)
		c, err, bad := parseGuarded(bytes.NewReader(file), patience())
		n++
		info := map[string]interface{}{"scenario": sc, "file": bytesToInts(file), "at": at}
		out := classify(err)
		if bad != "" {
			info["got"] = bad
			mismatch("outcome", info)
			return
		}
		if sc.Ok != (out == "ok") {
			info["got"] = fmt.Sprint(err)
			mismatch("row accepted or refused wrongly", info)
			return
		}
		if !sc.Ok {
			return
		}
		good++
		if len(c.PlainData) != 2 || len(c.PlainData[at]) != sc.W || len(c.PlainData[1-at]) != sc.W {
			mismatch("shape", info)
			return
		}
		for x := 0; x < sc.W; x++ {
			want := NA
			if x == 0 {
				want = -315
			}
			if !s.agrees(c.PlainData[at][x], sc.Cells[x]) || !s.agrees(c.PlainData[1-at][x], want) {
				info["x"], info["got"] = x, fmt.Sprint(c.PlainData[at][x], c.PlainData[1-at][x])
				mismatch("cell", info)
				return
			}
		}
		if n%977 == 3 {
			sample = map[string]interface{}{"width": sc.W, "row": sc.Row, "ok": sc.Ok}
		}
	})
	stat(map[string]interface{}{"replayed": n, "decoded": good, "refused": n - good, "sample": sample})
}

// replayDates reads every date of the calendar from a header.
func replayDates(path string) {
	type scen struct {
		Date []int  `json:"date"`
		My   []int  `json:"my"`
		K    string `json:"k"`
		Min  int    `json:"min"`
	}
	n, good := 0, 0
	var sample interface{}
	eachLine(path, func(line []byte) {
		var sc scen
		die(json.Unmarshal(line, &sc))
		n++
		vv := []int{-1, 0, 5, 60, 120, 999, 1440, 2880}[n%8]
		iv := []int{-1, 5, 60, 0, 1440, 10080, 15}[n%7]
		label := []string{"RX", "W1", "W4", "SF", "QQ", "PG", "W3", "W2", "WX"}[n%9]
		post := "VS 3"
		if iv >= 0 {
			post += fmt.Sprintf("INT%4d", iv)
		}
		post += "GP   1x   1"
		if vv >= 0 {
			post += fmt.Sprintf("VV %03d", vv)
		}
		head := label + string(intsToBytes(sc.Date)) + "10000" + string(intsToBytes(sc.My))
		file := []byte(head + fmt.Sprintf("BY%7d", len(head)+9+len(post)+2) + post + "\x03\x05")
		c, err, bad := parseGuarded(bytes.NewReader(file), patience())
		info := map[string]interface{}{"file": string(file), "scenario": sc}
		out := classify(err)
		if bad != "" || (out == "err") != (sc.K != "ok") {
			info["got"] = bad + fmt.Sprint(err)
			mismatch("date accepted or refused wrongly", info)
			return
		}
		if out == "err" {
			return
		}
		good++
		if vv < 0 {
			vv = 0
		}
		if iv < 0 {
			iv = 0
		}
		if label[0] == 'W' && label[1] < '5' {
			iv *= 10
		}
		if minutes(c.CaptureTime) != sc.Min || minutes(c.ForecastTime) != sc.Min+vv || durMinutes(c.Interval) != iv {
			info["got"] = fmt.Sprint(c.CaptureTime, c.ForecastTime, c.Interval)
			mismatch("time", info)
			return
		}
		if _, off := c.CaptureTime.Zone(); off != 0 {
			mismatch("time zone", info)
		}
		if n%9973 == 3 {
			sample = map[string]interface{}{"file": string(file), "capture_minutes": sc.Min}
		}
	})
	stat(map[string]interface{}{"replayed": n, "accepted": good, "refused": n - good, "sample": sample})
}

// labels parses a frame of every label in every encoding.
func labels(t *Tables, seed int64, aspects []string) {
	judge := set(aspects)
	var names []string
	for l := range t.Units {
		names = append(names, l)
	}
	sort.Strings(names)
	n := 0
	var mu sync.Mutex
	each(len(names), func(i int) {
		l := names[i]
		rng := rand.New(rand.NewSource(seed*31337 + int64(i)))
		for v := 0; v < 12; v++ {
			enc := []string{"one", "two", "run"}[v%3]
			w, h := 1+rng.Intn(5), 1+rng.Intn(4)
			version := rng.Intn(7)
			proj := false
			if v == 11 && (t.Units[l] == "unknown" && rng.Intn(4) == 0 || rng.Intn(40) == 0) {
				// with projection
				enc, w, h = "one", 115, 115
				proj = version < 5
			}
			prec := rng.Intn(5) - 2
			var body []byte
			want := make([][]int, h)
			post := fmt.Sprintf("VS%2d", version)
			s := Scale{prec, t.Units[l] == "dBZ"}
			if enc == "run" {
				post += "LV 2 12.5 -3.0"
				s = Scale{-1, false}
			} else {
				post += fmt.Sprintf("PR E%+03d", prec)
			}
			interval, forecast := 0, 0
			if rng.Intn(3) > 0 {
				interval = []int{5, 60, 1008, rng.Intn(10000), -1 - rng.Intn(999)}[rng.Intn(5)]
				post += fmt.Sprintf("INT%4d", interval)
			}
			if rng.Intn(3) == 0 {
				forecast = []int{60, 5, 1440, rng.Intn(5000), -1 - rng.Intn(999)}[rng.Intn(5)]
				post += fmt.Sprintf([]string{"VV %03d", "VV%+04d", "VV%4d"}[rng.Intn(3)], forecast)
			}
			post += []string{fmt.Sprintf("GP%4dx%4d", h, w), fmt.Sprintf("BG%03d%03d", h, w)}[rng.Intn(2)]
			for r := 0; r < h; r++ {
				row := make([]int, w)
				for x := range row {
					switch enc {
					case "one":
						b := byte(rng.Intn(256))
						body = append(body, b)
						row[x] = t.One[b]
					case "two":
						k := rng.Intn(65536)
						body = append(body, byte(k), byte(k>>8))
						row[x] = t.Two[k]
					case "run":
						if x == 0 {
							body = append(body, 30, 16)
						}
						k := rng.Intn(4)
						body = append(body, byte(16+k))
						row[x] = []int{NA, 125, -30, NA}[k]
					}
				}
				if enc == "run" {
					body = append(body, 10)
				}
				want[t.Rows[fmt.Sprintf("%s/%d", enc, h)][r]] = row
			}
			file := makeVaried(rng, l, post, body)
			r := run(bytes.NewReader(file), s)
			out := "ok"
			if t.Units[l] == "unknown" {
				out = "unit"
			}
			mu.Lock()
			n++
			wrong := false
			if judge["times"] {
				wrong = wrong || r.Outcome != out || r.Fc-r.Cap != forecast || r.Int != interval*t.Minutes[l]
			}
			if judge["unit"] {
				wrong = wrong || r.Outcome != out || r.Unit != t.Units[l] || string(intsToBytes(r.Product)) != l || !equalJSON(r.Plain, want) || !equalJSON(r.Z, [][][]int{want}) || !r.Alias ||
					r.Proj != proj || r.Fmt != version || r.Px != w || r.Py != h || r.Dx != w || r.Dy != h || r.Dz != 1 || r.Fc-r.Cap != forecast
			}
			if wrong {
				mismatch("label "+l, map[string]interface{}{"file": bytesToInts(file), "file_text": string(file), "enc": enc, "want_outcome": out, "want_unit": t.Units[l], "want_cells": want, "got": r, "detail": r.detail})
			}
			mu.Unlock()
		}
	})
	stat(map[string]interface{}{"replayed": n, "labels": len(names), "sample": map[string]interface{}{"labels": names[:20]}})
}

// layouts parses local products and compares their layers with the layout of the specification,
// or only their units.
func layouts(t *Tables, seed int64, rounds int, aspect string) {
	type job struct {
		label, enc string
		round      int
	}
	var jobs []job
	for _, l := range t.Local {
		for _, e := range []string{"one", "two", "run"} {
			for i := 0; i < rounds; i++ {
				jobs = append(jobs, job{l, e, i})
			}
		}
	}
	cells := 0
	var mu sync.Mutex
	each(len(jobs), func(i int) {
		j := jobs[i]
		lay := t.Layouts[j.label]
		rng := rand.New(rand.NewSource(seed*99991 + int64(i)))
		prec := rng.Intn(3) - 1
		s := Scale{prec, t.dbz[j.label]}
		post := fmt.Sprintf("VS%2d", rng.Intn(8))
		if j.enc == "run" {
			post += "LV 3 12.5 -3.0  0.5"
			s = Scale{-1, false}
		} else {
			post += fmt.Sprintf("E%+03d", prec)
		}
		if j.round%2 == 1 {
			post += "MS  5<boo>INT   5"
		}
		if rng.Intn(3) == 0 { // the least there can be
			post = ""
			if j.enc == "run" {
				post = "LV 3 12.5 -3.0  0.5"
			} else {
				s.Exp = 0
			}
		}
		plain := make([][]int, lay.Py)
		var body []byte
		order := t.Rows[fmt.Sprintf("%s/%d", j.enc, lay.Py)]
		if order == nil {
			die(fmt.Errorf("no rows for %d", lay.Py))
		}
		for r := 0; r < lay.Py; r++ {
			row := make([]int, lay.Px)
			for x := range row {
				switch j.enc {
				case "one":
					b := byte(rng.Intn(256))
					body = append(body, b)
					row[x] = t.One[b]
				case "two":
					k := rng.Intn(65536)
					body = append(body, byte(k), byte(k>>8))
					row[x] = t.Two[k]
				case "run":
					if x == 0 {
						body = append(body, 30, 16)
					}
					k := rng.Intn(4)
					body = append(body, byte(16+k))
					row[x] = []int{NA, 125, -30, 5}[k]
				}
			}
			if j.enc == "run" {
				body = append(body, 10)
			}
			plain[order[r]] = row
		}
		file := makeVaried(rng, j.label, post, body)
		if post == "" {
			file = makeFrame(j.label, post, body)
			copy(file[8:], station(rng))
		}
		rd := newSource(rng, file)
		rd.bound = 3000
		c, err, bad := parseGuarded(rd, 120*time.Second)
		info := map[string]interface{}{"label": j.label, "enc": j.enc, "post": post, "seed": seed, "index": i}
		fail := func(what string, extra interface{}) {
			mu.Lock()
			info["got"] = fmt.Sprint(extra)
			mismatch(what, info)
			mu.Unlock()
		}
		if bad != "" || classify(err) != "ok" {
			fail("local product not parsed", bad+fmt.Sprint(err))
			return
		}
		if aspect == "unit" {
			if c.Product != j.label || unitName(c.DataUnit) != t.Units[j.label] {
				fail("unit of a local product", []string{c.Product, unitName(c.DataUnit)})
			}
			return
		}
		if c.Px != lay.Px || c.Py != lay.Py || c.Dx != lay.Dx || c.Dy != lay.Dy || c.Dz != len(lay.Layers) || len(c.DataZ) != len(lay.Layers) || len(c.PlainData) != lay.Py {
			fail("dimensions", []int{c.Px, c.Py, c.Dx, c.Dy, c.Dz, len(c.DataZ)})
			return
		}
		if resClass(c.Rx, c.Ry) != lay.Res {
			fail("resolution", []float64{c.Rx, c.Ry})
			return
		}
		for y := range plain {
			if len(c.PlainData[y]) != lay.Px {
				fail("row length", len(c.PlainData[y]))
				return
			}
			for x := range plain[y] {
				if !s.agrees(c.PlainData[y][x], plain[y][x]) {
					fail("plain cell", []interface{}{x, y, c.PlainData[y][x], plain[y][x]})
					return
				}
			}
		}
		for z, rows := range lay.Layers {
			if len(c.DataZ[z]) != len(rows) {
				fail("layer height", []int{z, len(c.DataZ[z]), len(rows)})
				return
			}
			for y, from := range rows {
				if len(c.DataZ[z][y]) != lay.Dx {
					fail("layer width", []int{z, y, len(c.DataZ[z][y])})
					return
				}
				for x := range c.DataZ[z][y] {
					if !s.agrees(c.DataZ[z][y][x], plain[from][x]) || !s.agrees(c.AtZ(x, y, z), plain[from][x]) {
						fail("layer cell", []interface{}{x, y, z, c.DataZ[z][y][x], plain[from][x]})
						return
					}
				}
			}
		}
		if !aliasOK(c) || copied(c) {
			fail("data is not layer 0", "")
			return
		}
		mu.Lock()
		cells += lay.Px * lay.Py
		mu.Unlock()
	})
	stat(map[string]interface{}{"replayed": len(jobs), "cells": cells, "sample": map[string]interface{}{"labels": t.Local}})
}

// copied tells whether the two-dimensional data is stored apart from layer 0.
func copied(c *radolan.Composite) bool {
	for y := range c.Data {
		for x := range c.Data[y] {
			if &c.Data[y][x] != &c.DataZ[0][y][x] {
				return true
			}
		}
	}
	return false
}

// same0 writes into the two-dimensional data of composites of one layer and reads it as layer 0.
func same0(t *Tables, seed int64, n int) {
	done := 0
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(seed*49999 + int64(i)))
		f := genFrame(rng, t, Opt{encs: []string{"one", "two", "run"}, maxW: 9, maxH: 9, unknown: i%5 == 0})
		c, err, bad := parseGuarded(bytes.NewReader(f.file), patience())
		if bad != "" || classify(err) == "err" {
			mismatch("not parsed", map[string]interface{}{"file": bytesToInts(f.file), "got": bad + fmt.Sprint(err)})
			continue
		}
		y, x := rng.Intn(c.Dy), rng.Intn(c.Dx)
		v, w := float32(1000+rng.Intn(1000)), float32(3000+rng.Intn(1000))
		c.Data[y][x] = v
		a, b := c.DataZ[0][y][x], c.AtZ(x, y, 0)
		c.DataZ[0][y][x] = w
		if d, e := c.Data[y][x], c.At(x, y); a != v || b != v || d != w || e != w || copied(c) {
			mismatch("data is not layer 0", map[string]interface{}{"file": bytesToInts(f.file), "x": x, "y": y, "got": []float32{a, b, d, e}, "want": []float32{v, v, w, w}})
		}
		done++
	}
	stat(map[string]interface{}{"replayed": done})
}

// cuts records every truncation of random frames, by end of input and by failure.
func cuts(t *Tables, seed int64, frames int, out string) {
	tr := newTrace(out)
	outcomes := map[string]int{}
	for i := 0; i < frames; i++ {
		rng := rand.New(rand.NewSource(seed*424243 + int64(i)))
		o := Opt{encs: []string{"one", "two", "run"}[i%3 : i%3+1], maxW: 6, maxH: 4, permute: i%2 == 0, pads: i%4 == 0}
		f := genFrame(rng, t, o)
		for n := 0; n <= len(f.file); n++ {
			for _, brk := range []bool{false, true} {
				src := newSource(rng, f.file)
				if brk {
					src.breakAt = n
				} else {
					src.data, src.after = f.file[:n], f.file[n:]
				}
				r := run(src, f.scale)
				outcomes[r.Outcome]++
				tr.put(traceLine{fmt.Sprintf("cut-%d-%d-%d-%v", seed, i, n, brk), bytesToInts(src.data), asEv(src.events, r), f.scale})
			}
		}
	}
	tr.close()
	stat(map[string]interface{}{"recorded": tr.n, "outcomes": outcomes, "frames": frames})
}

// points records accesses to points of parsed composites and dummies.
func points(t *Tables, seed int64, n int, out string) {
	type ev struct {
		X int  `json:"x"`
		Y int  `json:"y"`
		Z int  `json:"z"`
		R int  `json:"r"`
		N bool `json:"n"` // recognised as missing
	}
	type line struct {
		ID   string    `json:"id"`
		Dx   int       `json:"dx"`
		Dy   int       `json:"dy"`
		L    [][][]int `json:"l"`
		Ev   []ev      `json:"ev"`
		Kind string    `json:"kind"`
	}
	tr := newTrace(out)
	kinds := map[string]int{}
	accesses := 0
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(seed*777767 + int64(i)))
		var c *radolan.Composite
		s := Scale{}
		kind := "parsed"
		l := line{ID: fmt.Sprintf("point-%d-%d", seed, i), L: [][][]int{}}
		switch {
		case i%7 == 0:
			kind = "dummy"
			c = dummy(pick(rng, t.Known), rng.Intn(8), rng.Intn(1500), rng.Intn(1500))
			l.Dx, l.Dy = c.Dx, c.Dy
		case i%7 == 1:
			kind = "failed"
			f := genFrame(rng, t, family("reject", t))
			var bad string
			var err error
			c, err, bad = parseGuarded(newSource(rng, f.file), patience())
			if bad != "" {
				mismatch("parse", map[string]interface{}{"file": bytesToInts(f.file), "got": bad})
				continue
			}
			if c == nil || classify(err) != "err" {
				continue
			}
			l.Dx, l.Dy = clamp(c.Dx), clamp(c.Dy)
		default:
			var f Frame
			if i%100 == 24 || i%100 == 66 || i%100 == 94 { // long rows, many rows, real size
				w, h := 9999-rng.Intn(5900), 2+rng.Intn(2)
				kind = "long"
				if i%100 == 66 {
					w, h = h, w
				} else if i%100 == 94 {
					w, h = [][2]int{{900, 1100}, {1400, 1500}, {1100, 1200}, {920, 920}}[i/100%4][0], [][2]int{{900, 1100}, {1400, 1500}, {1100, 1200}, {920, 920}}[i/100%4][1]
					kind = "real"
				}
				body := make([]byte, w*h)
				rng.Read(body)
				f = Frame{file: makeVaried(rng, "RW", fmt.Sprintf("VS 3GP%4dx%4d", h, w), body), scale: Scale{0, false}}
			} else if i%21 == 2 {
				kind = "volume"
				f = genFrame(rng, t, Opt{encs: []string{"one", "run"}, local: true, labels: []string{"PZ", "PU", "PX", "PR"}, maxW: 3, maxH: 3})
			} else {
				f = genFrame(rng, t, Opt{encs: []string{"one", "two", "run"}, maxW: 9, maxH: 9})
			}
			var err error
			var bad string
			c, err, bad = parseGuarded(newSource(rng, f.file), patience())
			if bad != "" || classify(err) == "err" {
				mismatch("parse", map[string]interface{}{"file": bytesToInts(f.file), "got": bad + fmt.Sprint(err)})
				continue
			}
			s = f.scale
			l.Dx, l.Dy = c.Dx, c.Dy
			l.L = absLayers(s, c.DataZ)
		}
		coord := func(lim int) int {
			switch rng.Intn(8) {
			case 0:
				return -1
			case 1:
				return lim
			case 2:
				return lim - 1
			case 3:
				return []int{-1 << 63, 1<<63 - 1, -1 << 31, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 32, 1 << 62, -100, 1000000, -lim, -lim + 1, lim + 1, 2 * lim}[rng.Intn(14)]
			case 4:
				return 0
			}
			if lim < 1 {
				return 0
			}
			return rng.Intn(lim)
		}
		m := 40
		if kind == "parsed" && l.Dx*l.Dy <= 80 {
			// everything in and around
			for z := -1; z <= len(l.L); z++ {
				for y := -1; y <= l.Dy; y++ {
					for x := -1; x <= l.Dx; x++ {
						l.Ev = append(l.Ev, ev{X: x, Y: y, Z: z})
					}
				}
			}
		}
		for ; m > 0; m-- {
			l.Ev = append(l.Ev, ev{X: coord(l.Dx), Y: coord(l.Dy), Z: coord(c.Dz)})
		}
		for k := range l.Ev {
			e := &l.Ev[k]
			func() {
				defer func() {
					if r := recover(); r != nil {
						mismatch("panic in point access", map[string]interface{}{"kind": kind, "x": e.X, "y": e.Y, "z": e.Z, "dx": l.Dx, "dy": l.Dy, "panic": fmt.Sprint(r)})
					}
				}()
				v := c.AtZ(e.X, e.Y, e.Z)
				if e.Z == 0 {
					if w := c.At(e.X, e.Y); !sameCell(v, w) {
						mismatch("At differs from AtZ", map[string]interface{}{"kind": kind, "x": e.X, "y": e.Y, "at": fmt.Sprint(w), "atz": fmt.Sprint(v)})
					}
				}
				e.R, e.N = s.abs(v), radolan.IsNaN(v)
			}()
			// the specification's integers are small; beyond, all coordinates are alike
			e.X, e.Y, e.Z = clamp(e.X), clamp(e.Y), clamp(e.Z)
			accesses++
		}
		// every cell there is
		for z := range c.DataZ {
			for y := range c.DataZ[z] {
				for x, v := range c.DataZ[z][y] {
					if w := c.AtZ(x, y, z); !sameCell(v, w) || radolan.IsNaN(w) != (v != v) || z == 0 && !sameCell(v, c.At(x, y)) {
						mismatch("point", map[string]interface{}{"kind": kind, "x": x, "y": y, "z": z, "cell": fmt.Sprint(v), "got": fmt.Sprint(w)})
					}
					accesses++
				}
			}
		}
		l.Kind = kind
		kinds[kind]++
		if kind != "real" {
			tr.put(l)
		}
	}
	// recognising missing values: all exponents, the mantissas that matter and some others
	rng := rand.New(rand.NewSource(seed))
	for block := 0; block < 8; block++ {
		l := line{ID: fmt.Sprintf("bits-%d-%d", seed, block), L: [][][]int{}, Kind: "bits"}
		for e := 32 * block; e < 32*block+32; e++ {
			for _, m := range []int{0, 1, 2, 1<<22 - 1, 1 << 22, 1<<22 + 1, 1<<23 - 1, rng.Intn(1 << 23), rng.Intn(1 << 23), 1 << uint(rng.Intn(23))} {
				for sign := 0; sign < 2; sign++ {
					v := math.Float32frombits(uint32(sign)<<31 | uint32(e)<<23 | uint32(m))
					l.Ev = append(l.Ev, ev{X: e, Y: m, Z: sign, R: NA, N: radolan.IsNaN(v)})
				}
			}
		}
		kinds["bits"]++
		tr.put(l)
	}
	tr.close()
	// and of every other value
	step := uint64(61)
	if os.Getenv("VERIF_TIER") == "thorough" {
		step = 1
	}
	for b := uint64(rng.Intn(int(step))); b < 1<<32; b += step {
		v := math.Float32frombits(uint32(b))
		if radolan.IsNaN(v) != (b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0) {
			mismatch("IsNaN", map[string]interface{}{"bits": b, "value": fmt.Sprint(v)})
			break
		}
	}
	if !radolan.IsNaN(radolan.NaN) {
		mismatch("NaN is no NaN", nil)
	}
	stat(map[string]interface{}{"recorded": tr.n, "accesses": accesses, "kinds": kinds})
}

// mutate damages a file.
func mutate(rng *rand.Rand, f []byte, other []byte, hdrLen int) []byte {
	f = append([]byte{}, f...)
	interesting := []string{"GP", "BG", "BY", "LV", "VV", "INT", "E", "VS", "MS", "-1", "99999999999", "0", " ", "\x03", "\n", "x", "-", "+", "1e9", "\x00", "\xff", "9999x9999", "-5x-5", "  0  0", "NaN", "Inf", "inf", "0x10", "1_0", "LV99", "LV-1", "É", "999", "E+99", "E-99"}
	for k := 1 + rng.Intn(4); k > 0; k-- {
		lim := len(f)
		if rng.Intn(3) > 0 && hdrLen < lim {
			lim = hdrLen
		}
		if lim == 0 {
			f = append(f, byte(rng.Intn(256)))
			continue
		}
		p := rng.Intn(lim)
		switch rng.Intn(9) {
		case 0:
			f[p] = byte(rng.Intn(256))
		case 1:
			f[p] ^= 1 << uint(rng.Intn(8))
		case 2:
			f = append(f[:p], f[p+1:]...)
		case 3:
			s := interesting[rng.Intn(len(interesting))]
			f = append(f[:p], append([]byte(s), f[p:]...)...)
		case 4:
			s := interesting[rng.Intn(len(interesting))]
			f = append(f[:p], append([]byte(s), f[min(len(f), p+len(s)):]...)...)
		case 5:
			q := p + rng.Intn(len(f)-p)
			f = append(f[:p], f[q:]...)
		case 6:
			q := p + rng.Intn(min(len(f)-p, 40))
			f = append(f[:q], append(append([]byte{}, f[p:q]...), f[q:]...)...)
		case 7:
			if len(other) > 0 {
				q := rng.Intn(len(other))
				f = append(f[:p], other[q:]...)
			}
		case 8:
			f[p] = byte("0123456789 -x"[rng.Intn(13)])
		}
	}
	return f
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// tooBig tells whether the file may legitimately make the library allocate much memory.
func tooBig(f []byte) bool {
	i := bytes.IndexByte(f, 3)
	if i < 0 {
		return false
	}
	// four digits in a row on both sides of an x
	h := string(f[:i])
	for {
		k := strings.Index(h, "x")
		if k < 0 {
			return false
		}
		digits := func(s string) (n int) {
			for _, b := range s {
				if b >= '0' && b <= '9' {
					n++
				}
			}
			return
		}
		if k >= 4 && len(h) >= k+5 && digits(h[k-4:k])+digits(h[k+1:k+5]) >= 7 {
			return true
		}
		h = h[k+1:]
	}
}

// fuzz parses damaged files; any outcome but a crash is fine.
// With a trace file it also records them for the specification.
func fuzz(t *Tables, seed int64, n int, out string) {
	var tr *traceOut
	if out != "-" {
		tr = newTrace(out)
	}
	outcomes := map[string]int{}
	var mu sync.Mutex
	var sample interface{}
	fams := []string{"one", "two", "run", "reject", "chunk", "times", "fields", "dims"}
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*55555333 + int64(i)))
		f := genFrame(rng, t, family(fams[rng.Intn(len(fams))], t))
		g := genFrame(rng, t, family(fams[rng.Intn(len(fams))], t))
		var file []byte
		switch rng.Intn(12) {
		case 0: // pure noise
			file = make([]byte, rng.Intn(200))
			rng.Read(file)
		case 1: // printable noise
			file = make([]byte, rng.Intn(200))
			for k := range file {
				file[k] = byte(32 + rng.Intn(95))
			}
			file = append(file, 3)
		case 2: // noise after a plausible start
			file = append([]byte("RX262115100000616BY     40"), make([]byte, rng.Intn(60))...)
			rng.Read(file[26:])
			file = append(file, 3, 1, 2, 3)
		default:
			file = mutate(rng, f.file, g.file, f.hdrLen)
		}
		if tooBig(file) {
			return
		}
		src := newSource(rng, file)
		if rng.Intn(6) == 0 {
			src.breakAt = rng.Intn(len(file) + 1)
		}
		r := run(src, f.scale)
		mu.Lock()
		defer mu.Unlock()
		outcomes[r.Outcome]++
		if r.Outcome == "panic" || r.Outcome == "hang" {
			mismatch(r.Outcome+" while parsing", map[string]interface{}{"file": bytesToInts(file), "file_text": string(file), "detail": r.detail})
		}
		if i == n/3 {
			sample = map[string]interface{}{"file": fmt.Sprintf("%q", file), "outcome": r.Outcome}
		}
		if tr != nil {
			tr.put(traceLine{fmt.Sprintf("fuzz-%d-%d", seed, i), bytesToInts(file), asEv(src.events, r), f.scale})
		}
	})
	if tr != nil {
		tr.close()
	}
	stat(map[string]interface{}{"replayed": n, "outcomes": outcomes, "sample": sample})
}

// memory parses headers that promise more than the format can express.
func memory() {
	n := 0
	heads := []string{}
	for _, d := range []string{"GP10000x10000", "GP99999x99999", "GP1000000x1000", "GP1000x1000000", "GP99999999x1", "GP1x999999999", "GP400000000x9", "GP-1x-100000000", "GP-100000000x1", "GP30000x-30000"} {
		for _, by := range []string{"BY     60", "BY100000000", "BY9998000100", "BY20000000000", "BY 0", "BY-5"} {
			heads = append(heads, "RX262115100000616"+by+"VS 3"+d+"\x03")
			heads = append(heads, "PG262115100000616"+by+"LV 1  1.0"+d+"\x03")
		}
	}
	for _, by := range []string{"BY     60", "BY100000000"} {
		heads = append(heads, "PG262115100000616"+by+"BG002002LV99999999\x03", "PG262115100000616"+by+"BG002002LV 9\x03", "PG262115100000616"+by+"BG002002LV-9\x03", "PG262115100000616"+by+"BG-99-99\x03", "PG262115100000616"+by+"BG-99099\x03")
	}
	for _, h := range heads {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		c, err, bad := parseGuarded(io.MultiReader(strings.NewReader(h), strings.NewReader("\x10\x20\x30\n")), patience())
		runtime.ReadMemStats(&m1)
		n++
		_ = c
		used := m1.TotalAlloc - m0.TotalAlloc
		if bad != "" || classify(err) != "err" || used > 64<<20 {
			mismatch("oversized dimensions", map[string]interface{}{"file_text": h, "got": bad + fmt.Sprint(err), "allocated": used})
		}
	}
	stat(map[string]interface{}{"replayed": n, "what": "headers promising impossible dimensions"})
}

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"
)

func loadTables(path string) *Tables {
	b, err := os.ReadFile(path)
	die(err)
	t := &Tables{}
	die(json.Unmarshal(b, t))
	t.dbz, t.known, t.local = set(t.DBZ), set(t.Known), set(t.Local)
	for l, u := range t.Units {
		if u == "unknown" {
			t.unknown = append(t.unknown, l)
		}
	}
	sort.Strings(t.unknown)
	return t
}

func eachLine(path string, f func(line []byte)) {
	fd, err := os.Open(path)
	die(err)
	defer fd.Close()
	rd := bufio.NewReaderSize(fd, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			f(line)
		}
		if err == io.EOF {
			return
		}
		die(err)
	}
}

type traceOut struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func newTrace(path string) *traceOut {
	f, err := os.Create(path)
	die(err)
	t := &traceOut{f: f, w: bufio.NewWriterSize(f, 1<<20)}
	openTraces.Store(t, true)
	return t
}

func (t *traceOut) put(v interface{}) {
	b, err := json.Marshal(v)
	die(err)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
}

func (t *traceOut) close() {
	openTraces.Delete(t)
	die(t.w.Flush())
	die(t.f.Close())
}

// Hdr is the header record of the specification.
type Hdr struct {
	K       string `json:"k"`
	Product []int  `json:"product"`
	Unit    string `json:"unit"`
	Cap     int    `json:"cap"`
	Fc      int    `json:"fc"`
	Int     int    `json:"int"`
	Px      int    `json:"px"`
	Py      int    `json:"py"`
	Dx      int    `json:"dx"`
	Dy      int    `json:"dy"`
	Res     int    `json:"res"`
	Fmt     int    `json:"fmt"`
	Scale   Scale  `json:"scale"`
	Proj    string `json:"proj"`
}

type Scen struct {
	Name    string    `json:"name"`
	File    []int     `json:"file"`
	Calls   []int     `json:"calls"`
	Verdict string    `json:"verdict"`
	Hdr     Hdr       `json:"hdr"`
	Plain   [][]int   `json:"plain"`
	Layers  [][][]int `json:"layers"`
}

func equalJSON(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

func (s *Scen) differs(aspect string, r *Res) bool {
	h := &s.Hdr
	switch aspect {
	case "product":
		return !equalJSON(r.Product, h.Product)
	case "unit":
		return r.Unit != h.Unit || r.Outcome != s.Verdict
	case "times":
		return r.Cap != h.Cap || r.Fc != h.Fc || r.Int != h.Int
	case "version":
		return r.Fmt != h.Fmt
	case "dims":
		if r.Px != h.Px || r.Py != h.Py || r.Dx != h.Dx || r.Dy != h.Dy || r.Dz != len(s.Layers) ||
			len(r.Plain) != h.Py || len(r.Z) != len(s.Layers) {
			return true
		}
		for y := range r.Plain {
			if len(r.Plain[y]) != h.Px {
				return true
			}
		}
		for z := range r.Z {
			if len(r.Z[z]) != h.Dy {
				return true
			}
			for y := range r.Z[z] {
				if len(r.Z[z][y]) != h.Dx {
					return true
				}
			}
		}
	case "cells":
		return !equalJSON(r.Plain, s.Plain)
	case "data", "layers":
		return !equalJSON(r.Z, s.Layers) || !r.Alias || r.Dz != len(s.Layers)
	case "proj":
		return r.Proj != (h.Proj != "none")
	case "res":
		want := h.Res
		if h.Proj != "none" {
			want = 3
		}
		return r.Res != want
	}
	return false
}

// judge compares a result with what the specification requires.
func (s *Scen) judge(r *Res, aspects []string) (why []string) {
	success := r.Outcome == "ok" || r.Outcome == "unit"
	if r.Outcome == "panic" || r.Outcome == "hang" {
		return []string{"outcome"}
	}
	switch s.Verdict {
	case "wild":
		return
	case "err":
		if success && contains(aspects, "reject") {
			why = append(why, "outcome")
		}
	default:
		if !success {
			return []string{"outcome"}
		}
		for _, a := range aspects {
			if s.differs(a, r) {
				why = append(why, a)
			}
		}
	}
	return
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// replayDecoder steps behaviours of the specification through the library.
func replayDecoder(path string, aspects []string) {
	n, ok := 0, 0
	var sample interface{}
	eachLine(path, func(line []byte) {
		var s Scen
		die(json.Unmarshal(line, &s))
		rd := &callReader{data: intsToBytes(s.File), calls: append([]int(nil), s.Calls...)}
		scale := s.Hdr.Scale
		r := run(rd, scale)
		n++
		if r.Outcome != "err" {
			ok++
		}
		if why := s.judge(&r, aspects); len(why) > 0 {
			mismatch(fmt.Sprintf("%s: %v", s.Name, why), map[string]interface{}{"scenario": s, "got": r, "detail": r.detail})
		}
		if n%997 == 1 {
			sample = map[string]interface{}{"file": string(intsToBytes(s.File)), "calls": s.Calls, "verdict": s.Verdict}
		}
	})
	stat(map[string]interface{}{"replayed": n, "successes": ok, "sample": sample})
}

// families of inputs for trace validation
func family(name string, t *Tables) Opt {
	all := []string{"one", "two", "run"}
	o := Opt{encs: all, maxW: 12, maxH: 10, permute: false, pads: false}
	switch name {
	case "one":
		o.encs, o.wide, o.maxW, o.maxH = []string{"one"}, 40, 30, 12
	case "two":
		o.encs, o.wide, o.maxW, o.maxH = []string{"two"}, 40, 30, 12
	case "run":
		o.encs, o.wide, o.maxW, o.maxH, o.rawRows = []string{"run"}, 12, 60, 8, true
	case "reject":
		o.damage, o.permute = "random", true
	case "chunk":
		o.wide, o.trailing = 15, true
	case "times":
		o.times, o.permute, o.pads, o.maxW, o.maxH = true, true, true, 3, 2
	case "fields":
		o.permute, o.unknown, o.pads, o.times, o.maxW, o.maxH = true, true, true, true, 6, 5
	case "dims":
		o.wide, o.permute, o.unknown, o.pads, o.maxW, o.maxH = 20, true, true, true, 50, 20
	case "local":
		o.encs, o.local, o.labels = all, true, t.Local
	case "mixed":
		o.local, o.permute, o.unknown, o.trailing = false, true, true, true
	default:
		die(fmt.Errorf("unknown family %s", name))
	}
	return o
}

type traceLine struct {
	ID    string        `json:"id"`
	File  []int         `json:"file"`
	Ev    []interface{} `json:"ev"`
	Scale Scale         `json:"scale"` // for attribution, not for the specification
}

// solo parses one file, delivered at once or by the given calls, in a process of its own.
func solo() {
	var q struct {
		File  []int
		Calls []int
		Scale Scale
	}
	die(json.NewDecoder(os.Stdin).Decode(&q))
	var rd io.Reader = bytes.NewReader(intsToBytes(q.File))
	if len(q.Calls) > 0 {
		rd = &callReader{data: intsToBytes(q.File), calls: q.Calls}
	}
	b, _ := json.Marshal(run(rd, q.Scale))
	fmt.Println("RESULT " + string(b))
}

func asEv(es []Event, r interface{}) []interface{} {
	out := []interface{}{}
	for _, e := range es {
		out = append(out, e)
	}
	return append(out, r)
}

// drive records parses of random frames.
func drive(fam string, t *Tables, seed int64, n int, out string) {
	tr := newTrace(out)
	counts := map[string]int{}
	var sample interface{}
	var mu sync.Mutex
	lines := make([]*traceLine, n)
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
			f := genFrame(rng, t, family(fam, t))
			src := newSource(rng, f.file)
			if (fam == "reject" || fam == "mixed") && rng.Intn(4) == 0 {
				src.breakAt = rng.Intn(len(f.file) + 1)
			}
			if fam == "chunk" && rng.Intn(3) == 0 {
				// the source breaks somewhere after the frame, or anywhere
				src.breakAt = f.hdrLen + len(f.body) + rng.Intn(1+len(f.file)-f.hdrLen-len(f.body))
				if rng.Intn(3) == 0 {
					src.breakAt = rng.Intn(len(f.file) + 1)
				}
			}
			r := run(src, f.scale)
			mu.Lock()
			counts[f.enc+"/"+r.Outcome]++
			if f.damage != "" {
				counts["damage "+f.damage+" -> "+r.Outcome]++
			}
			if i == n/2 {
				sample = map[string]interface{}{"file": strconv.Quote(string(f.file)), "events": src.events, "outcome": r.Outcome}
			}
			mu.Unlock()
			id := fmt.Sprintf("%s-%d-%d", fam, seed, i)
			lines[i] = &traceLine{id, bytesToInts(f.file), asEv(src.events, r), f.scale}
		}(i)
	}
	wg.Wait()
	for _, l := range lines {
		tr.put(l)
	}
	tr.close()
	stat(map[string]interface{}{"recorded": tr.n, "outcomes": counts, "sample": sample})
}

func makeFrame(label, post string, body []byte) []byte {
	pre := label + "262115100000616BY"
	n := len(pre) + 7 + len(post) + 1 + len(body)
	return append([]byte(fmt.Sprintf("%s%7d%s\x03", pre, n, post)), body...)
}

// checkGrid compares all cells of a frame with the specification's tables.
func checkGrid(t *Tables, enc, label string, w, h, prec int, body []byte, rd func([]byte) io.Reader, what string) int {
	r := varied(enc, label, w, h, prec, what, len(body))
	p := fmt.Sprintf("PR E%+03dGP%4dx%4d", prec, h, w)
	if r.Intn(4) > 0 {
		p = fmt.Sprintf("VS%2d", r.Intn(8)) + p
	}
	if r.Intn(4) > 0 {
		p = fmt.Sprintf("INT%4d", []int{5, 60, 1440, r.Intn(10000)}[r.Intn(4)]) + p
	}
	if r.Intn(2) == 0 {
		p += fmt.Sprintf("VV %03d", []int{0, 5, 60, 120, r.Intn(1000)}[r.Intn(5)])
	}
	file := makeVaried(r, label, p, body)
	c, err, bad := parseGuarded(rd(file), 120*time.Second)
	info := map[string]interface{}{"enc": enc, "label": label, "w": w, "h": h, "prec": prec, "file_head": string(file[:len(file)-len(body)]), "what": what}
	if len(body) <= 200000 {
		info["body"] = bytesToInts(body)
	}
	if bad != "" || classify(err) == "err" {
		info["got"] = bad + fmt.Sprint(err)
		mismatch("frame not parsed", info)
		return 0
	}
	s := Scale{prec, t.dbz[label]}
	rows := t.Rows[fmt.Sprintf("%s/%d", enc, h)]
	if rows == nil {
		die(fmt.Errorf("no row table for %s/%d", enc, h))
	}
	if len(c.PlainData) != h {
		mismatch("rows", info)
		return 0
	}
	for r := 0; r < h; r++ {
		row := c.PlainData[rows[r]]
		if len(row) != w {
			mismatch("columns", info)
			return 0
		}
		for x := 0; x < w; x++ {
			var m int
			if enc == "one" {
				m = t.One[body[r*w+x]]
			} else {
				i := 2 * (r*w + x)
				m = t.Two[int(body[i])+256*int(body[i+1])]
			}
			if !s.agrees(row[x], m) {
				info["x"], info["y"], info["got"], info["want_m"], info["want"] = x, rows[r], fmt.Sprint(row[x]), m, fmt.Sprint(s.phys(m))
				mismatch("cell", info)
				return 0
			}
		}
	}
	if len(c.DataZ) != 1 || c.Dz != 1 || !aliasOK(c) || len(c.Data) != h {
		mismatch("layer", info)
		return 0
	}
	for y := range c.Data {
		for x := range c.Data[y] {
			if !sameCell(c.Data[y][x], c.PlainData[y][x]) {
				mismatch("layer cell", info)
				return 0
			}
		}
	}
	return w * h
}

// codes runs every cell code through the library, for every unit and many precisions.
func codes(t *Tables, enc string) {
	labels := []string{"RX", "RW", "PE", "PR", "QQ", "WN"}
	precs := []int{}
	for p := -36; p <= 34; p++ {
		precs = append(precs, p)
	}
	cells, frames := 0, 0
	whole := func(b []byte) io.Reader { return bytes.NewReader(b) }
	for _, l := range labels {
		for _, p := range precs {
			var body []byte
			w, h := 16, 16
			if enc == "one" {
				for i := 0; i < 256; i++ {
					body = append(body, byte(i))
				}
			} else {
				w, h = 256, 256
				for i := 0; i < 65536; i++ {
					body = append(body, byte(i), byte(i>>8))
				}
			}
			cells += checkGrid(t, enc, l, w, h, p, body, whole, "all codes")
			frames++
		}
	}
	// every label, with every code
	for i, l := range t.Known {
		body := make([]byte, 256)
		w, h := 16, 16
		if enc == "two" {
			body = make([]byte, 2*65536)
			w, h = 256, 256
		}
		for k := range body {
			body[k] = byte(k)
			if enc == "two" {
				body[k] = byte(k / 2 >> (uint(k%2) * 8))
			}
		}
		for _, p := range []int{-1, 0, i%7 - 3} {
			cells += checkGrid(t, enc, l, w, h, p, body, whole, "label")
			frames++
		}
	}
	stat(map[string]interface{}{"frames": frames, "cells": cells, "codes_x_scales": len(labels) * len(precs),
		"sample": map[string]interface{}{"enc": enc, "labels": labels, "precisions": precs}})
}

// big parses frames of the sizes of real products.
func big(t *Tables, enc string, seed int64, thorough bool) {
	sizes := [][2]int{{900, 900}, {450, 450}, {460, 460}, {900, 1100}, {1100, 1200}, {1400, 1500}, {9999, 2}, {1, 9999}, {4095, 3}, {4096, 3}, {4097, 3}, {2047, 2}, {2048, 4}, {2049, 5}, {1, 1}, {8192, 2}, {8193, 3}, {225, 225}}
	if !thorough {
		sizes = append(sizes[:0:0], sizes[0], sizes[4], sizes[6], sizes[7], sizes[8], sizes[9], sizes[10], sizes[12], sizes[13], sizes[14], sizes[15])
	}
	if enc == "one" { // as long as a length of seven digits can tell
		sizes = append(sizes, [2]int{2800, 3000})
	} else {
		sizes = append(sizes, [2]int{2000, 2400})
	}
	cells, frames := 0, 0
	for i, sz := range sizes {
		rng := rand.New(rand.NewSource(seed*7919 + int64(i)))
		w, h := sz[0], sz[1]
		n := w * h
		if enc == "two" {
			n *= 2
		}
		for v := 0; v < 3; v++ {
			body := make([]byte, n)
			rng.Read(body)
			rd := func(b []byte) io.Reader { return bytes.NewReader(b) }
			if v > 0 {
				rd = func(b []byte) io.Reader { s := newSource(rng, b); s.bound = 5000; return s }
			}
			label := []string{"SF", "FX", "RX"}[rng.Intn(3)]
			cells += checkGrid(t, enc, label, w, h, -rng.Intn(3), body, rd, "big")
			frames++
			if w*h > 3000000 {
				break
			}
		}
	}
	stat(map[string]interface{}{"frames": frames, "cells": cells, "sample": map[string]interface{}{"sizes": sizes}})
}

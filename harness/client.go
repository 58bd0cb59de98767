package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"sync"

	"gitlab.cs.fau.de/since/radolan"
)

// holding is a composite a client holds, and what the specification says of it.
type holding struct {
	c     *radolan.Composite
	copy  *radolan.Composite
	what  string
	file  *Scen // cells of a file,
	cell  int   // or the same everywhere
	scale Scale
	own   int // what the client wrote into all cells, or 0
	made  int // call that made it,
	nth   int // and its number among the composites of that call
}

type callOf struct {
	Kind    string   `json:",omitempty"`
	File    string   `json:",omitempty"`
	Files   []string `json:",omitempty"`
	Order   []string `json:",omitempty"`
	Cut     int      `json:",omitempty"`
	How     string   `json:",omitempty"`
	Verdict string   `json:",omitempty"`
	Ok      bool     `json:",omitempty"`
	Label   string   `json:",omitempty"`
	Version int      `json:",omitempty"`
	W, H    int
	Byte    int `json:",omitempty"`
	Cell    int `json:",omitempty"`
	Scale   Scale
	Proj    bool `json:",omitempty"`
	I       int  `json:",omitempty"`
	X, Y, Z int
	Own     bool   `json:",omitempty"`
	Blank   bool   `json:",omitempty"`
	Method  string `json:",omitempty"`
	Value   int    `json:",omitempty"`
	N       int    `json:",omitempty"`
}

var everyAspect = []string{"product", "unit", "times", "version", "dims", "cells", "layers", "data", "proj", "res", "reject"}

// shade numbers abstract cells; it has no state.
func shade(m int) color.RGBA {
	n := uint32(m + 0x400000)
	if m == NA {
		n = 0x7fffff
	} else if m < -0x3fffff || m > 0x3ffff0 {
		n = 0x7ffffe
	}
	return color.RGBA{uint8(n), uint8(n >> 8), uint8(n >> 16), 255}
}

// alone is the shortest history with the same last call: if that fails too, the
// failure has nothing to do with the rest of the history.
func alone(hist []callOf, step int, heap []*holding) (out []callOf) {
	e := hist[step]
	if e.Kind == "review" || e.Kind == "forget" {
		return nil
	}
	if e.I > 0 {
		h := heap[e.I-1]
		out = append(out, hist[h.made])
		e.I = h.nth
		if h.own != 0 {
			out = append(out, callOf{Kind: "scribble", I: h.nth, Value: h.own})
		}
	}
	return append(out, e)
}

// client replays histories of the specification's client.
func client(path string, seed int64) {
	files := map[string]*Scen{}
	var hists [][]callOf
	eachLine(path, func(line []byte) {
		var d struct {
			Scen
			Hist []callOf `json:"hist"`
		}
		die(json.Unmarshal(line, &d))
		if d.Name != "" {
			files[d.Name] = &d.Scen
		} else {
			hists = append(hists, d.Hist)
		}
	})
	var fileList []*Scen
	for _, f := range files {
		fileList = append(fileList, f)
	}
	places := [][2]float64{{52.5, 13.4}, {48.1, 11.6}, {54, 5}, {46.9526, 3.5889}, {60, 10}, {70.25, -20.5}}
	// where places were seen first, by grid size and method
	type spot struct{ x, y [6]float64 }
	seen := map[string]spot{}
	kinds := map[string]int{}
	calls := 0
	flatFile := func(e *callOf) []byte {
		return makeFrame(e.Label, fmt.Sprintf("VS%2dE+00GP%4dx%4d", e.Version, e.H, e.W), bytes.Repeat([]byte{byte(e.Byte)}, e.W*e.H))
	}
	for hi, hist := range hists {
		rng := rand.New(rand.NewSource(seed*15485863 + int64(hi)))
		var heap []*holding
		broken, at := false, 0
		fail := func(step int, why string, more map[string]interface{}) {
			m := map[string]interface{}{"history": hist[:step+1], "step": step, "index": hi, "seed": seed, "alone": alone(hist, step, heap), "files": fileList}
			for k, v := range more {
				m[k] = v
			}
			mismatch(fmt.Sprintf("call %d (%s): %s", step+1, hist[step].Kind, why), m)
			broken = true
		}
		hold := func(h *holding) {
			h.copy, h.made, h.nth = copyOf(h.c), at, 1
			for _, o := range heap {
				if o.made == at {
					h.nth++
				}
			}
			heap = append(heap, h)
		}
		// judges a parse of a whole or cut file
		judge := func(step int, f *Scen, verdict string, cut int, c *radolan.Composite, err error, bad string) {
			g := *f
			g.Verdict = verdict
			r := Res{E: "ret", Outcome: "panic", Product: []int{}, Plain: [][]int{}, Z: [][][]int{}, detail: bad}
			if bad == "hang" {
				r.Outcome = "hang"
			}
			if bad == "" {
				r = abstract(c, err, f.Hdr.Scale)
			}
			if why := g.judge(&r, everyAspect); len(why) > 0 {
				fail(step, fmt.Sprint("parse of ", f.Name, ": ", why), map[string]interface{}{"parsed": &g, "delivered": cut, "result": r, "detail": r.detail})
				return
			}
			if verdict == "ok" || verdict == "unit" {
				hold(&holding{c: c, what: f.Name, file: f, scale: f.Hdr.Scale})
			}
		}
		review := func(step int) {
			for i, h := range heap {
				if d := same(h.c, h.copy); d != "" {
					fail(step, fmt.Sprintf("composite %d (%s) changed: %s", i+1, h.what, d), nil)
					return
				}
			}
		}
		expect := func(h *holding, x, y, z int) int {
			switch {
			case z < 0 || z >= len(h.c.DataZ) || y < 0 || y >= h.c.Dy || x < 0 || x >= h.c.Dx:
				return NA
			case h.own != 0:
				return h.own
			case h.file != nil:
				return h.file.Layers[z][y][x]
			}
			return h.cell
		}
		agrees := func(h *holding, v float32, m int) bool {
			if h.own != 0 {
				return v == float32(m) || m == NA && v != v
			}
			return h.scale.agrees(v, m)
		}
		for s := range hist {
			e := &hist[s]
			at = s
			calls++
			kinds[e.Kind]++
			switch e.Kind {
			case "parse":
				f := files[e.File]
				// the manner of delivery is not the matter here
				end := 0
				if e.How == "fails" {
					end = -1
				}
				c, err, bad := parseGuarded(&callReader{data: intsToBytes(f.File), calls: []int{e.Cut, end}}, patience())
				judge(s, f, e.Verdict, e.Cut, c, err, bad)
				if c != nil && classify(err) == "err" && rng.Intn(2) == 0 {
					touch(rng, c, 2)
				}
			case "together":
				type answer struct {
					c   *radolan.Composite
					err error
					bad string
				}
				as := make([]answer, len(e.Files))
				var wg sync.WaitGroup
				for i, n := range e.Files {
					wg.Add(1)
					src := bytes.NewReader(intsToBytes(files[n].File))
					go func(a *answer) {
						defer wg.Done()
						a.c, a.err, a.bad = parseGuarded(src, patience())
					}(&as[i])
				}
				wg.Wait()
				for i, n := range e.Files {
					judge(s, files[n], files[n].Verdict, len(files[n].File), as[i].c, as[i].err, as[i].bad)
				}
			case "archive":
				var ms []member
				for i, n := range e.Files {
					ms = append(ms, anyMember(rng, i, intsToBytes(files[n].File)))
				}
				a := readArchive(bytes.NewReader(compress(join(tarChunks(ms)), 1+rng.Intn(9))))
				switch {
				case a.bad != "" || (a.err == nil) != e.Ok || a.err != nil && len(a.cs) > 0 || len(a.cs) != len(e.Order):
					// members are judged by themselves first
					for _, n := range e.Files {
						r := run(bytes.NewReader(intsToBytes(files[n].File)), files[n].Hdr.Scale)
						if why := files[n].judge(&r, everyAspect); len(why) > 0 {
							broken = true // not a matter of the archive
						}
					}
					if !broken {
						fail(s, fmt.Sprint("archive: ", len(a.cs), " composites ", a.err, a.bad), nil)
					}
				default:
					for i, n := range e.Order {
						judge(s, files[n], "ok", len(files[n].File), a.cs[i], nil, "")
					}
				}
			case "dummy":
				c := dummy(e.Label, e.Version, e.W, e.H)
				if c.HasProjection != e.Proj || c.Dx != e.W || c.Dy != e.H || c.Dz != 0 || c.At(0, 0) == c.At(0, 0) {
					fail(s, fmt.Sprint("dummy: projection ", c.HasProjection, " size ", c.Dx, c.Dy, c.Dz), nil)
					break
				}
				hold(&holding{c: c, what: "dummy"})
			case "flat":
				c, err, bad := parseGuarded(bytes.NewReader(flatFile(e)), patience())
				if bad != "" || classify(err) != e.Verdict || c.HasProjection != e.Proj || c.Dx != e.W || c.Dy != e.H || c.Dz != 1 {
					fail(s, "composite of one value: "+bad+fmt.Sprint(err), nil)
					break
				}
				hold(&holding{c: c, what: "flat", cell: e.Cell, scale: e.Scale})
			case "look":
				h := heap[e.I-1]
				v := h.c.AtZ(e.X, e.Y, e.Z)
				if e.Own && h.own != e.Cell {
					die(fmt.Errorf("history %d: composite was not written", hi))
				}
				if !agrees(h, v, e.Cell) || e.Z == 0 && !sameCell(v, h.c.At(e.X, e.Y)) {
					fail(s, fmt.Sprintf("composite %d (%s) at %d,%d,%d: %v", e.I, h.what, e.X, e.Y, e.Z, v), nil)
				}
			case "draw":
				h := heap[e.I-1]
				img, bad := render(func(v float64) color.RGBA {
					if h.own != 0 {
						if v == float64(h.own) {
							return shade(h.own)
						}
						return shade(offGrid)
					}
					return shade(h.scale.abs(float32(v)))
				}, h.c, e.Z)
				if bad != "" || img.Rect.Dx() != h.c.Dx || img.Rect.Dy() != h.c.Dy {
					fail(s, "picture: "+bad, nil)
					break
				}
				for y := 0; y < h.c.Dy && !broken; y++ {
					for x := 0; x < h.c.Dx; x++ {
						want := color.RGBA{}
						if !e.Blank {
							want = shade(expect(h, x, y, e.Z))
						}
						if got := img.RGBAAt(img.Rect.Min.X+x, img.Rect.Min.Y+y); got != want {
							fail(s, fmt.Sprintf("picture of composite %d (%s), layer %d: %d,%d is %v", e.I, h.what, e.Z, x, y, got), nil)
							break
						}
					}
				}
			case "locate":
				h := heap[e.I-1]
				var p spot
				for i, q := range places {
					p.x[i], p.y[i] = place(h.c, q[0], q[1])
				}
				key := fmt.Sprint(e.W, e.H, e.Method)
				first, ok := seen[key]
				if !ok {
					seen[key] = p
					first = p
				}
				for i := range places {
					if e.Method == "none" && (p.x[i] == p.x[i] || p.y[i] == p.y[i]) || e.Method != "none" && !(math.Abs(p.x[i]-first.x[i]) < 1e-6 && math.Abs(p.y[i]-first.y[i]) < 1e-6) {
						fail(s, fmt.Sprintf("composite %d (%s %s) projects %v to %v, %v; earlier %v, %v", e.I, h.what, key, places[i], p.x[i], p.y[i], first.x[i], first.y[i]), nil)
						break
					}
				}
			case "scribble":
				h := heap[e.I-1]
				h.own = e.Value
				for _, rows := range append(append([][][]float32{}, h.c.DataZ...), h.c.PlainData, h.c.Data) {
					for y := range rows {
						for x := range rows[y] {
							rows[y][x] = float32(e.Value)
						}
					}
				}
				h.copy = copyOf(h.c)
			case "review":
				review(s)
			case "forget":
				review(s)
				heap = nil
			default:
				die(fmt.Errorf("call %s", e.Kind))
			}
			if broken {
				break
			}
			if (e.Kind != "forget" && e.N != 0) && e.N != len(heap) {
				die(fmt.Errorf("history %d: %d composites, not %d", hi, len(heap), e.N))
			}
		}
		if !broken && len(hist) > 0 {
			review(len(hist) - 1)
		}
	}
	if len(hists) == 0 || len(files) == 0 {
		die(fmt.Errorf("no histories"))
	}
	stat(map[string]interface{}{"replayed": len(hists), "calls": calls, "kinds": kinds, "sample": hists[0][:min(8, len(hists[0]))]})
}

package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
)

// rows records parses of run-length composites of real and of extreme size.
func rows(t *Tables, seed int64, n int, out string) {
	type line struct {
		ID      string  `json:"id"`
		W       int     `json:"w"`
		Levels  []int   `json:"levels"` // ten-thousandths
		Rows    [][]int `json:"rows"`
		Outcome string  `json:"outcome"`
		Plain   [][]int `json:"plain"`
	}
	sizes := [][2]int{{460, 460}, {70, 3}, {900, 30}, {9999, 2}, {1, 700}, {255, 40}, {512, 20}, {239, 9}, {240, 9}, {2000, 5}, {5, 1}, {460, 60}, {33, 512}, {1, 9999}, {900, 900}}
	lines := make([]line, n)
	outs := map[string]int{}
	longest := 0
	var bodies = make([]int, n)
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*472882027 + int64(i)))
		w, h := sizes[i%len(sizes)][0], sizes[i%len(sizes)][1]
		if i >= len(sizes) && w*h > 40000 && rng.Intn(4) > 0 {
			h = 1 + rng.Intn(40000/w)
		}
		l := line{ID: fmt.Sprintf("rows-%d-%d", seed, i), W: w, Levels: []int{}, Plain: [][]int{}}
		var text strings.Builder
		levels := rng.Intn(17)
		fmt.Fprintf(&text, []string{"%2d", "%2d", "%02d", "%-2d"}[rng.Intn(4)], levels)
		few, few1, few2 := rng.Intn(5), rng.Intn(1500)-800, rng.Intn(999)
		for k := 0; k < levels; k++ {
			v := rng.Intn(1999) - 999
			switch few {
			case 0:
				v = []int{few1, few2, 0}[rng.Intn(1+rng.Intn(3))]
			case 1:
				v = few1 + 10*k
			}
			l.Levels = append(l.Levels, v*1000)
			s := fmt.Sprintf("%.1f", float64(v)/10)
			if v >= 0 && rng.Intn(8) == 0 {
				s = "+" + s
			}
			fmt.Fprintf(&text, "%5s", s)
		}
		var body []byte
		put := func(row []byte) {
			l.Rows = append(l.Rows, bytesToInts(row))
			if len(row) > bodies[i] {
				bodies[i] = len(row)
			}
			body = append(append(body, row...), 10)
		}
		long := -1
		if i%len(sizes) < 3 || rng.Intn(3) == 0 {
			long = rng.Intn(h)
		}
		for y := 0; y < h; y++ {
			row := genRow(rng, w, levels, false, false)
			if y == long { // runs of no cells, longer than any buffer
				k := 4000 + rng.Intn(20000)
				if i%len(sizes) < 2 {
					k = 66000 + rng.Intn(70000)
				}
				row = []byte{17, 16}
				for ; k > 0; k-- {
					row = append(row, byte(rng.Intn(10)))
				}
				for x := 0; x+3 <= w && x < 60; x += 3 {
					row = append(row, byte(0x30+rng.Intn(16)))
				}
			}
			put(row)
		}
		if i%7 == 6 { // a malformed row among them
			y := rng.Intn(h)
			bad := []byte{20, byte(rng.Intn(10))}
			if rng.Intn(2) == 0 {
				bad = []byte{20, 16}
				for x := 0; x <= w; x += 15 {
					bad = append(bad, 0xF1)
				}
				bad = append(bad, 0xF1)
			}
			var b []byte
			for k := range l.Rows {
				if k == y {
					l.Rows[k] = bytesToInts(bad)
				}
				b = append(append(b, intsToBytes(l.Rows[k])...), 10)
			}
			body = b
		}
		post := fmt.Sprintf("VS 3LV%sINT   5GP%4dx%4d", text.String(), h, w)
		if h < 1000 && w < 1000 && rng.Intn(2) == 0 {
			post = fmt.Sprintf("VS 3LV%sCS0MX 0BG%3d%3d", text.String(), h, w)
		}
		var rd io.Reader
		src := newSource(rng, makeVaried(rng, pick(rng, t.Known), post, body))
		src.bound = 5000
		if src.mode == 1 {
			src.mode = 3
		}
		rd = src
		r := run(rd, Scale{-4, false})
		l.Outcome = r.Outcome
		if r.Outcome == "ok" {
			l.Plain = r.Plain
		}
		lines[i] = l
	})
	tr := newTrace(out)
	for i, l := range lines {
		outs[l.Outcome]++
		tr.put(l)
		if bodies[i] > longest {
			longest = bodies[i]
		}
	}
	tr.close()
	stat(map[string]interface{}{"recorded": n, "outcomes": outs, "longest_row": longest})
}

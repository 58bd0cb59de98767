package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// unlike tells whether two composites differ in an aspect.
func unlike(aspect string, a, b *radolan.Composite) bool {
	switch aspect {
	case "outcome":
		return false
	case "unit":
		return a.Product != b.Product || a.DataUnit != b.DataUnit
	case "times":
		return !a.CaptureTime.Equal(b.CaptureTime) || !a.ForecastTime.Equal(b.ForecastTime) || a.Interval != b.Interval
	case "dims":
		return a.Px != b.Px || a.Py != b.Py || a.Dx != b.Dx || a.Dy != b.Dy || a.Dz != b.Dz || len(a.DataZ) != len(b.DataZ) || len(a.PlainData) != len(b.PlainData)
	case "cells":
		return !sameRows(a.PlainData, b.PlainData)
	case "data":
		return !sameRows(a.Data, b.Data)
	}
	return same(a, b) != ""
}

// together parses tiny files in several goroutines, one right after another. Every
// composite is compared with that of the same file parsed alone.
func together(t *Tables, seed int64, n int, families, aspects []string) {
	type job struct {
		file []byte
		want *radolan.Composite
		out  string
	}
	rng := rand.New(rand.NewSource(seed * 39916801))
	var jobs []job
	outs := map[string]int{}
	for len(jobs) < 48 {
		o := family(families[len(jobs)%len(families)], t)
		o.maxW, o.maxH, o.local, o.wide = 3, 3, false, 0
		if len(jobs)%8 == 7 {
			o.damage = "random"
		}
		f := genFrame(rng, t, o)
		if len(f.file) > 1500 {
			continue
		}
		c, err, bad := parseGuarded(bytes.NewReader(f.file), patience())
		if bad != "" {
			mismatch(bad, map[string]interface{}{"bytes": bytesToInts(f.file)})
			return
		}
		jobs = append(jobs, job{f.file, copyOf(c), classify(err)})
		outs[classify(err)]++
	}
	var stop int32
	var wg sync.WaitGroup
	workers := 2 * runtime.NumCPU()
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(rng *rand.Rand) {
			defer wg.Done()
			for i := 0; i < n/workers+1 && atomic.LoadInt32(&stop) == 0; i++ {
				j := &jobs[rng.Intn(len(jobs))]
				c, err, bad := parseDirect(j.file)
				what := bad
				switch {
				case bad != "":
				case classify(err) != j.out:
					what = "outcome " + classify(err) + " instead of " + j.out
				case j.out != "err":
					for _, a := range aspects {
						if unlike(a, c, j.want) {
							what = a
						}
					}
				}
				if what != "" {
					atomic.StoreInt32(&stop, 1)
					mismatch("parses by several goroutines: "+what, map[string]interface{}{"bytes": bytesToInts(j.file), "seed": seed})
					return
				}
			}
		}(rand.New(rand.NewSource(rng.Int63())))
	}
	wg.Wait()
	stat(map[string]interface{}{"replayed": n, "files": len(jobs), "outcomes": outs, "goroutines": workers})
}

// parseDirect parses without a goroutine of its own.
func parseDirect(file []byte) (c *radolan.Composite, err error, bad string) {
	defer busy()()
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprint("panic: ", p)
		}
	}()
	c, err = radolan.NewComposite(bytes.NewReader(file))
	return
}

// dummies makes dummies of several sizes in several goroutines and asks them.
func dummies(gridPath string, seed int64, n int, aspect string) {
	t, _ := loadGrids(gridPath)
	type job struct {
		v, dx, dy int
		method    string
		c         *radolan.Composite
	}
	rng := rand.New(rand.NewSource(seed * 479001599))
	var jobs []job
	for d := range t {
		for _, v := range []int{3, 5} {
			for _, e := range [][2]int{{0, 0}, {0, 0}, {1, 0}, {2, 2}} {
				dx, dy := d[0]+e[0], d[1]+e[1]
				jobs = append(jobs, job{v, dx, dy, methodOf(t, dx, dy, v), dummy("RX", v, dx, dy)})
			}
		}
	}
	var stop int32
	var wg sync.WaitGroup
	workers := 2 * runtime.NumCPU()
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(rng *rand.Rand) {
			defer wg.Done()
			for i := 0; i < n/workers+1 && atomic.LoadInt32(&stop) == 0; i++ {
				j := &jobs[rng.Intn(len(jobs))]
				c := dummy("RX", j.v, j.dx, j.dy)
				var what string
				if aspect == "proj" && c.HasProjection != (j.method != "none") {
					what = fmt.Sprintf("HasProjection is %v, the method is %s", c.HasProjection, j.method)
				}
				if aspect == "res" && (!sameF(c.Rx, j.c.Rx) || !sameF(c.Ry, j.c.Ry)) {
					what = fmt.Sprintf("resolution %v x %v, alone %v x %v", c.Rx, c.Ry, j.c.Rx, j.c.Ry)
				}
				if aspect == "place" {
					la, lo := 45+10*rng.Float64(), 20*rng.Float64()
					ax, ay := place(c, la, lo)
					bx, by := place(j.c, la, lo)
					if !sameF(ax, bx) || !sameF(ay, by) {
						what = fmt.Sprintf("Project(%v, %v) = %v, %v and %v, %v", la, lo, ax, ay, bx, by)
					}
				}
				if what != "" {
					atomic.StoreInt32(&stop, 1)
					mismatch("dummies by several goroutines: "+what, map[string]interface{}{"dx": j.dx, "dy": j.dy, "version": j.v, "seed": seed})
				}
			}
		}(rand.New(rand.NewSource(rng.Int63())))
	}
	wg.Wait()
	stat(map[string]interface{}{"replayed": n, "sizes": len(jobs), "goroutines": workers})
}

// many reads archives of very many members: each must be there, in order.
func many(seed int64, sizes []int) {
	total := 0
	for i, n := range sizes {
		rng := rand.New(rand.NewSource(seed*6700417 + int64(i)))
		var ms []member
		fc := make([]int, n)
		for k := range fc {
			fc[k] = rng.Intn(2 * n)
			if i%3 == 2 {
				fc[k] = n - k
			}
			ms = append(ms, plainMember(rng, k, makeFrame("SF", fmt.Sprintf("VV%5dGP   1x   2", fc[k]), []byte{byte(k), byte(k >> 8 & 15), byte(k >> 12), 0})))
		}
		a := readArchive(bytes.NewReader(compress(join(tarChunks(ms)), 9)))
		total += n
		info := map[string]interface{}{"members": n, "composites": len(a.cs), "got": a.bad + fmt.Sprint(a.err), "seed": seed}
		if a.bad != "" || a.err != nil || len(a.cs) != n {
			mismatch("archive of very many members", info)
			continue
		}
		seen := make([]bool, n)
		for p, c := range a.cs {
			k := -1
			if c.Dx == 2 && c.Dy == 1 {
				k = int(c.At(0, 0)) + int(c.At(1, 0))<<12
			}
			if k < 0 || k >= n || seen[k] || c.ForecastTime.Sub(c.CaptureTime) != time.Duration(fc[k])*time.Minute || p > 0 && c.ForecastTime.Before(a.cs[p-1].ForecastTime) {
				info["position"], info["member"] = p, k
				mismatch("archive of very many members", info)
				break
			}
			seen[k] = true
		}
	}
	stat(map[string]interface{}{"replayed": total, "sizes": sizes})
}

// long parses files whose header or rows are as long as a length of seven digits can tell.
func long() {
	const n = 4 << 20
	body := []byte{66}
	files := map[string][]byte{
		"station list":       makeFrame("RX", "VS 3GP   1x   1MS  1<"+strings.Repeat("ham,", n/4)+">", body),
		"unknown fields":     makeFrame("RX", "VS 3GP   1x   1"+strings.Repeat("QZ1234", n/6), body),
		"different fields":   makeFrame("RX", "VS 3GP   1x   1"+manyFields(n/8), body),
		"letters":            makeFrame("RX", "VS 3GP   1x   1"+strings.Repeat("Q", n)+"1", body),
		"blanks":             makeFrame("RX", "VS"+strings.Repeat(" ", n)+"3GP   1x   1", body),
		"zeros":              makeFrame("RX", "VS"+strings.Repeat("0", n)+"3GP   1x   1", body),
		"run-length row":     makeFrame("PG", "LV 1  1.0GP   1x   1", append(append([]byte{1, 16}, bytes.Repeat([]byte{1}, n)...), 0x11, 10)),
		"offset":             makeFrame("PG", "LV 1  1.0GP   1x   1", append(append([]byte{1}, bytes.Repeat([]byte{255}, n)...), 16, 10)),
		"ignored bytes":      makeFrame("PG", "LV 1  1.0GP9999x   1", bytes.Repeat([]byte{1, 16, 0x11, 10}, 9999)),
		"single-byte row":    makeFrame("RX", "GP 900x9999", make([]byte, 900*9999)),
		"two-byte row":       makeFrame("RW", "GP 450x9999", make([]byte, 2*450*9999)),
		"no end of header":   bytes.Repeat([]byte("RX262115100000616BY 60"), n/20),
		"no end of a row":    makeFrame("PG", "LV 1  1.0GP   1x   1", append([]byte{1, 16}, bytes.Repeat([]byte{1}, n)...)),
		"behind the frame":   append(makeFrame("RX", "GP   1x   1", body), make([]byte, n)...),
		"levels":             makeFrame("PG", "LV99"+strings.Repeat("  1.0", 99)+"GP   1x   1", []byte{1, 16, 0x11, 10}),
		"many wrong levels":  makeFrame("PG", "LV99"+strings.Repeat("  1.0", n/5)+"GP   1x   1", []byte{1, 16, 0x11, 10}),
		"a long wrong field": makeFrame("RX", "VV"+strings.Repeat("x", n)+"GP   1x   1", body),
	}
	times := map[string]string{}
	for name, f := range files {
		start := time.Now()
		_, err, bad := parseGuarded(bytes.NewReader(f), patience())
		times[name] = fmt.Sprintf("%s in %v", classify(err), time.Since(start).Round(time.Millisecond))
		if bad != "" {
			mismatch("a long file", map[string]interface{}{"what": name, "bytes": len(f), "got": bad})
		}
	}
	stat(map[string]interface{}{"replayed": len(files), "times": times})
}

func manyFields(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := i
		b.WriteByte('Q')
		for j := 0; j < 4; j++ {
			b.WriteByte(byte('A' + k%26))
			k /= 26
		}
		b.WriteString("  1")
	}
	return b.String()
}

// dropped keeps parts of composites but not the composites themselves, while others are
// parsed and the memory is cleaned up.
func dropped(t *Tables, seed int64, n int) {
	type part struct {
		what string
		rows [][]float32
		then [][]float32
		z    [][][]float32
		img  *radolan.Composite
	}
	rng := rand.New(rand.NewSource(seed * 87178291199))
	sizes := [][2]int{{1, 1}, {7, 3}, {20, 20}, {100, 60}}
	var parts []part
	for i := 0; i < n; i++ {
		sz := sizes[i%len(sizes)]
		body := make([]byte, sz[0]*sz[1])
		rng.Read(body)
		label, post := pick(rng, t.Known), fmt.Sprintf("GP%4dx%4d", sz[1], sz[0])
		if i%25 == 24 {
			label, post = "PX", ""
			body = make([]byte, 200*224)
			rng.Read(body)
		}
		c, err, bad := parseGuarded(bytes.NewReader(makeVaried(rng, label, post, body)), patience())
		if bad != "" || classify(err) != "ok" {
			mismatch("not parsed", map[string]interface{}{"label": label, "size": sz, "got": bad + fmt.Sprint(err)})
			return
		}
		p := part{}
		switch i % 5 {
		case 0:
			p.what, p.rows = "Data", c.Data
		case 1:
			p.what, p.rows = "PlainData", c.PlainData
		case 2:
			p.what, p.rows = "DataZ[0]", c.DataZ[0]
		case 3:
			p.what, p.rows = "a row", c.PlainData[c.Py-1:]
		case 4:
			d := *c
			p.what, p.rows, p.img = "a copy of the composite", d.Data, &d
		}
		for _, r := range p.rows {
			p.then = append(p.then, append([]float32{}, r...))
		}
		c = nil
		parts = append(parts, p)
		if i%10 == 9 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
	}
	for i, p := range parts {
		if !sameRows(p.rows, p.then) {
			mismatch("data kept of a composite have changed", map[string]interface{}{"part": p.what, "index": i, "of": n, "seed": seed})
			return
		}
	}
	stat(map[string]interface{}{"replayed": n})
}

// within is a source that parses something else whenever it is read from.
type within struct {
	rd io.Reader
	do func()
}

func (w *within) Read(p []byte) (int, error) {
	w.do()
	return w.rd.Read(p)
}

// nested parses files whose sources parse other files while they are read from, in the
// same goroutine or in another one that is waited for: no parse waits for another one.
func nested(t *Tables, seed int64, n int) {
	type job struct {
		file []byte
		want *radolan.Composite
		out  string
	}
	rng := rand.New(rand.NewSource(seed * 68718952447))
	var jobs []job
	for len(jobs) < 60 {
		o := family(pick(rng, []string{"mixed", "chunk", "run", "one", "two", "reject", "times"}), t)
		o.local, o.wide, o.maxW, o.maxH = false, 0, 6, 6
		f := genFrame(rng, t, o)
		c, err, bad := parseGuarded(bytes.NewReader(f.file), patience())
		if bad != "" {
			mismatch(bad, map[string]interface{}{"bytes": bytesToInts(f.file)})
			return
		}
		jobs = append(jobs, job{f.file, copyOf(c), classify(err)})
	}
	var mu sync.Mutex
	parses, levels := 0, [4]int{}
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*193939 + int64(i)))
		var parse func(depth int) string
		parse = func(depth int) string {
			j := &jobs[rng.Intn(len(jobs))]
			reads, inner := 0, ""
			src := newSource(rng, j.file)
			src.bound = 3000
			c, err := radolan.NewComposite(&within{src, func() {
				reads++
				if depth == 3 || reads > 4 || inner != "" {
					return
				}
				if rng.Intn(2) == 0 {
					inner = parse(depth + 1)
					return
				}
				done := make(chan string, 1)
				go func() { done <- parse(depth + 1) }()
				inner = <-done
			}})
			mu.Lock()
			parses++
			levels[depth]++
			mu.Unlock()
			switch {
			case inner != "":
				return inner
			case classify(err) != j.out:
				return fmt.Sprintf("outcome %s instead of %s", classify(err), j.out)
			case j.out != "err" && same(c, j.want) != "":
				return same(c, j.want)
			}
			return ""
		}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					done <- fmt.Sprint("panic: ", p)
				}
			}()
			done <- parse(0)
		}()
		what := ""
		select {
		case what = <-done:
		case <-time.After(patience()):
			hung()
			what = "never returns"
		}
		if what != "" {
			mu.Lock()
			mismatch("parses within parses: "+what, map[string]interface{}{"seed": seed, "index": i})
			mu.Unlock()
		}
	})
	stat(map[string]interface{}{"replayed": parses, "levels": levels})
}

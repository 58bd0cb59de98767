package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// gate delivers a file in portions, each when it is granted.
type gate struct {
	portions [][]byte
	arrive   chan bool // the reader has been called and waits
	grant    chan bool
	open     chan bool // closed: no more waiting
}

// sourcePanic is what panicking sources panic with.
type sourcePanic struct{}

func (g *gate) Read(p []byte) (int, error) {
	select {
	case <-g.open:
	case g.arrive <- true:
		select {
		case ok := <-g.grant:
			if !ok {
				panic(sourcePanic{})
			}
		case <-g.open:
		}
	}
	if len(g.portions) == 0 {
		return 0, io.EOF
	}
	n := copy(p, g.portions[0])
	if n < len(g.portions[0]) {
		g.portions[0] = g.portions[0][n:]
	} else {
		g.portions = g.portions[1:]
	}
	return n, nil
}

func split(rng *rand.Rand, data []byte, n int) (out [][]byte) {
	for ; n > 1 && len(data) > n; n-- {
		k := 1 + rng.Intn(2*len(data)/n)
		if k > len(data)-n {
			k = len(data) - n
		}
		if k < 1 {
			k = 1
		}
		out = append(out, data[:k])
		data = data[k:]
	}
	return append(out, data)
}

// copyOf takes everything exported of a composite.
func copyOf(c *radolan.Composite) *radolan.Composite {
	if c == nil {
		return nil
	}
	d := *c
	rows := func(r [][]float32) [][]float32 {
		var o [][]float32
		for i := range r {
			o = append(o, append([]float32{}, r[i]...))
		}
		return o
	}
	d.PlainData, d.Data, d.DataZ = rows(c.PlainData), rows(c.Data), nil
	for _, z := range c.DataZ {
		d.DataZ = append(d.DataZ, rows(z))
	}
	return &d
}

// replaySessions interleaves parses as the specification's schedules say.
func replaySessions(path string, seed int64) {
	type scen struct {
		Job      []string `json:"job"`
		Reads    int      `json:"reads"`
		Schedule []int    `json:"schedule"`
	}
	files := map[string]*Scen{}
	var scens []scen
	eachLine(path, func(line []byte) {
		var f Scen
		die(json.Unmarshal(line, &f))
		if f.Name != "" {
			files[f.Name] = &f
			return
		}
		var s scen
		die(json.Unmarshal(line, &s))
		scens = append(scens, s)
	})
	type kept struct {
		c, copy *radolan.Composite
		name    string
	}
	var mu sync.Mutex
	var retained []kept
	serialised, steps := 0, 0
	one := func(i int) {
		s := scens[i]
		rng := rand.New(rand.NewSource(seed*2971215073 + int64(i)))
		reads := s.Reads
		gone := make([]bool, len(s.Job))
		gates := make([]*gate, len(s.Job))
		results := make([]chan parsed, len(s.Job))
		sizes := make([][]int, len(s.Job))
		over := make([]bool, len(s.Job))
		got := make([]parsed, len(s.Job))
		for p, name := range s.Job {
			f := files[name]
			if f == nil {
				die(fmt.Errorf("no file %s", name))
			}
			portions := split(rng, intsToBytes(f.File), reads)
			for _, b := range portions {
				sizes[p] = append(sizes[p], len(b))
			}
			gates[p] = &gate{portions, make(chan bool), make(chan bool), make(chan bool)}
			results[p] = make(chan parsed, 1)
			go func(p int) {
				var r parsed
				defer func() {
					if x := recover(); x != nil {
						r.pan = x
					}
					results[p] <- r
				}()
				r.c, r.err = radolan.NewComposite(gates[p])
			}(p)
		}
		blocked := false
		wait := time.NewTimer(time.Hour)
		defer wait.Stop()
		// until session p waits for its next portion or has returned
		settle := func(p int) {
			if over[p] || blocked {
				return
			}
			wait.Reset(2 * time.Second)
			select {
			case <-gates[p].arrive:
			case got[p] = <-results[p]:
				over[p] = true
			case <-wait.C:
				// the library lets parses wait for each other: give up the schedule, not the results
				blocked = true
			}
		}
		for p := range s.Job {
			settle(p)
		}
		for _, q := range s.Schedule {
			p, deliver := q-1, true
			if q < 0 {
				p, deliver = -q-1, false
			}
			if over[p] || blocked {
				continue
			}
			gone[p] = gone[p] || !deliver
			gates[p].grant <- deliver
			settle(p)
		}
		for p := range s.Job {
			close(gates[p].open)
		}
		for p, name := range s.Job {
			if !over[p] {
				select {
				case got[p] = <-results[p]:
				case <-time.After(patience()):
					hung()
					mu.Lock()
					mismatch("a parse never returned", map[string]interface{}{"scenario": s, "session": p + 1})
					mu.Unlock()
					return
				}
			}
			if gone[p] {
				if got[p].pan == nil && got[p].err == nil {
					mu.Lock()
					mismatch("a parse whose source panicked succeeded", map[string]interface{}{"scenario": s, "session": p + 1})
					mu.Unlock()
				}
				continue
			}
			f := files[name]
			r := Res{Outcome: "panic", detail: fmt.Sprint(got[p].pan)}
			if got[p].pan == nil {
				r = abstract(got[p].c, got[p].err, f.Hdr.Scale)
			}
			if why := f.judge(&r, []string{"product", "unit", "times", "version", "dims", "cells", "layers", "proj", "res", "reject"}); len(why) > 0 {
				mu.Lock()
				mismatch(fmt.Sprintf("session %d (%s): %v", p+1, name, why), map[string]interface{}{"scenario": s, "session": p + 1, "file": f, "calls": append(sizes[p], 0), "got": r, "detail": r.detail, "seed": seed, "index": i})
				mu.Unlock()
			}
			if r.Outcome == "ok" || r.Outcome == "unit" {
				mu.Lock()
				retained = append(retained, kept{got[p].c, copyOf(got[p].c), name})
				mu.Unlock()
			}
		}
		mu.Lock()
		steps += len(s.Schedule)
		if blocked {
			serialised++
		}
		mu.Unlock()
	}
	// two schedules at a time are concurrent parses on top of the interleaved ones
	half := len(scens) / 2
	for i := 0; i < half; i++ {
		one(i)
		if serialised > 3 {
			break
		}
	}
	if serialised <= 3 {
		each(len(scens)-half, func(i int) {
			if serialised <= 3 {
				one(half + i)
			}
		})
	}
	for _, k := range retained {
		if d := same(k.c, k.copy); d != "" {
			mismatch("a returned composite changed: "+d, map[string]interface{}{"file": files[k.name]})
		}
	}
	stat(map[string]interface{}{"replayed": len(scens), "steps": steps, "retained": len(retained), "serialised": serialised,
		"sample": map[string]interface{}{"job": scens[len(scens)/3].Job, "schedule": scens[len(scens)/3].Schedule}})
}

type histLine struct {
	f    Frame
	src  *source
	c    *radolan.Composite
	err  error
	res  Res
	name string
}

// touch reads points and projects coordinates.
func touch(rng *rand.Rand, c *radolan.Composite, n int) {
	for ; n > 0; n-- {
		c.AtZ(rng.Intn(c.Dx+2)-1, rng.Intn(c.Dy+2)-1, rng.Intn(c.Dz+2)-1)
		c.At(rng.Intn(c.Dx+2)-1, rng.Intn(c.Dy+2)-1)
		c.Project(46+9*rng.Float64(), 3+13*rng.Float64())
		c.Project(90*rng.Float64(), 360*rng.Float64()-180)
	}
}

// histories runs parses one after the other or at the same time, keeps what they
// return and looks at it again at the end.
func histories(t *Tables, seed int64, n int, concurrent bool, out string) {
	var tr *traceOut
	if out != "-" {
		tr = newTrace(out)
	}
	outs := map[string]int{}
	parses := 0
	for h := 0; h < n; h++ {
		rng := rand.New(rand.NewSource(seed*122949823 + int64(h)))
		m := 4 + rng.Intn(24)
		lines := make([]*histLine, m)
		for i := range lines {
			fam := pick(rng, []string{"one", "two", "run", "reject", "mixed", "fields", "dims", "chunk"})
			f := genFrame(rng, t, family(fam, t))
			if i > 0 && rng.Intn(4) == 0 { // the same file again
				f = lines[rng.Intn(i)].f
			}
			l := &histLine{f: f, name: fmt.Sprintf("hist-%d-%d-%d", seed, h, i)}
			l.src = newSource(rand.New(rand.NewSource(rng.Int63())), f.file)
			if rng.Intn(8) == 0 {
				l.src.breakAt = rng.Intn(len(f.file) + 1)
			}
			lines[i] = l
		}
		parse := func(l *histLine) {
			c, err, bad := parseGuarded(l.src, patience())
			l.c, l.err = c, err
			if bad != "" {
				l.res = Res{E: "ret", Outcome: "panic", Product: []int{}, Plain: [][]int{}, Z: [][][]int{}, detail: bad}
				l.c = nil
				return
			}
			l.res = abstract(c, err, l.f.scale)
		}
		if concurrent {
			var wg sync.WaitGroup
			start := make(chan bool)
			for i, l := range lines {
				wg.Add(1)
				go func(l *histLine, s int64) {
					defer wg.Done()
					<-start
					parse(l)
					if l.c != nil && l.res.Outcome != "err" {
						touch(rand.New(rand.NewSource(s)), l.c, 5)
					}
				}(l, int64(i))
			}
			close(start)
			wg.Wait()
			// everybody looks at everything
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func(s int64) {
					defer wg.Done()
					r := rand.New(rand.NewSource(s))
					for _, l := range lines {
						if l.c != nil && l.res.Outcome != "err" {
							touch(r, l.c, 3)
						}
					}
				}(int64(i))
			}
			wg.Wait()
		} else {
			for i, l := range lines {
				parse(l)
				if k := lines[rng.Intn(i+1)]; k.c != nil && k.res.Outcome != "err" {
					touch(rng, k.c, 3)
				}
				if rng.Intn(5) == 0 {
					touch(rng, dummy("RX", rng.Intn(7), 900, 1100), 2)
				}
			}
		}
		for _, l := range lines {
			parses++
			outs[l.res.Outcome]++
			if tr == nil {
				continue
			}
			tr.put(traceLine{l.name, bytesToInts(l.f.file), asEv(l.src.events, l.res), l.f.scale})
			if l.c != nil && (l.res.Outcome == "ok" || l.res.Outcome == "unit") {
				tr.put(traceLine{l.name + "-late", bytesToInts(l.f.file), asEv(l.src.events, abstract(l.c, l.err, l.f.scale)), l.f.scale})
			}
		}
	}
	if tr != nil {
		tr.close()
		stat(map[string]interface{}{"recorded": tr.n, "outcomes": outs, "parses": parses})
		return
	}
	stat(map[string]interface{}{"replayed": parses, "outcomes": outs})
}

// shared uses composites with projection from many goroutines at once.
func shared(t *Tables, seed int64, rounds int) {
	grids := [][2]int{{225, 225}, {115, 115}, {230, 230}, {225, 275}, {275, 300}, {350, 375}, {175, 187}, {450, 450}, {220, 240}}
	n := 0
	for k := 0; k < rounds; k++ {
		rng := rand.New(rand.NewSource(seed*49979687 + int64(k)))
		g := grids[k%len(grids)]
		fmtv := []int{3, 5, 2}[rng.Intn(3)]
		body := make([]byte, g[0]*g[1])
		rng.Read(body)
		file := makeFrame("RX", fmt.Sprintf("VS%2dGP%4dx%4d", fmtv, g[1], g[0]), body)
		cs := []*radolan.Composite{dummy("FX", fmtv, g[0], g[1])}
		for i := 0; i < 2; i++ {
			c, err, bad := parseGuarded(newSource(rng, file), patience())
			if bad != "" || err != nil {
				mismatch("parse", map[string]interface{}{"file_head": string(file[:60]), "got": bad + fmt.Sprint(err)})
				return
			}
			cs = append(cs, c)
		}
		type q struct {
			x, y, z  int
			lat, lon float64
		}
		qs := make([]q, 200)
		for i := range qs {
			qs[i] = q{rng.Intn(g[0]+4) - 2, rng.Intn(g[1]+4) - 2, rng.Intn(3) - 1, 44 + 12*rng.Float64(), 20 * rng.Float64()}
		}
		type ans struct {
			v, w float32
			x, y float64
		}
		ask := func(c *radolan.Composite, a q) (r ans) {
			r.v, r.w = c.AtZ(a.x, a.y, a.z), c.At(a.x, a.y)
			r.x, r.y = c.Project(a.lat, a.lon)
			return
		}
		for ci, c := range cs {
			copy := copyOf(c)
			var mu sync.Mutex
			var wg sync.WaitGroup
			first := make([][]ans, runtime.NumCPU())
			for w := range first {
				first[w] = make([]ans, len(qs))
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := range qs {
						j := (i + w*len(qs)/len(first)) % len(qs)
						first[w][j] = ask(c, qs[j])
					}
				}(w)
			}
			wg.Wait()
			for i := range qs {
				want := ask(c, qs[i])
				for w := range first {
					a := first[w][i]
					if !sameCell(a.v, want.v) || !sameCell(a.w, want.w) || !sameF(a.x, want.x) || !sameF(a.y, want.y) {
						mu.Lock()
						mismatch("concurrent use gave another answer", map[string]interface{}{"grid": g, "version": fmtv, "query": fmt.Sprint(qs[i]), "got": fmt.Sprint(a), "want": fmt.Sprint(want)})
						mu.Unlock()
						return
					}
				}
				n += len(first)
			}
			if d := same(c, copy); d != "" {
				mismatch("use altered the composite: "+d, map[string]interface{}{"grid": g, "version": fmtv, "composite": ci})
			}
		}
	}
	n += lasting(t, seed, rounds)
	// archives at the same time
	rng := rand.New(rand.NewSource(seed * 217645177))
	for k := 0; k < 4; k++ {
		var streams [][]byte
		var solo [][]*radolan.Composite
		for i := 0; i < 3; i++ {
			var ms []member
			for j := 0; j < 4; j++ {
				ms = append(ms, anyMember(rng, j, memberFile(rng, t, "good", j)))
			}
			z := compress(join(tarChunks(ms)), 9)
			a := readArchive(bytes.NewReader(z))
			if a.bad != "" || a.err != nil {
				mismatch("sound archive refused", map[string]interface{}{"archive": bytesToInts(z), "got": a.bad + fmt.Sprint(a.err)})
				return
			}
			streams, solo = append(streams, z), append(solo, a.cs)
		}
		var wg sync.WaitGroup
		for w := 0; w < 12; w++ {
			wg.Add(1)
			n++
			go func(w int) {
				defer wg.Done()
				a := readArchive(bytes.NewReader(streams[w%3]))
				ok := a.bad == "" && a.err == nil && len(a.cs) == len(solo[w%3])
				for j := 0; ok && j < len(a.cs); j++ {
					ok = same(a.cs[j], solo[w%3][j]) == ""
				}
				if !ok {
					atomic.AddInt32(&wrong, 1)
				}
			}(w)
		}
		wg.Wait()
	}
	if wrong > 0 {
		mismatch("concurrent reading of archives gave another result", map[string]interface{}{"times": wrong, "seed": seed})
	}
	stat(map[string]interface{}{"replayed": n, "rounds": rounds})
}

var wrong int32

// lasting makes composites and dummies of many resolutions and versions and asks
// each of them again after the others have been made.
func lasting(t *Tables, seed int64, rounds int) (n int) {
	refs := [][2]int{{900, 900}, {920, 920}, {900, 1100}, {1100, 1200}, {1400, 1500}}
	type place struct{ lat, lon float64 }
	type member struct {
		what   string
		c      *radolan.Composite
		copy   *radolan.Composite
		places []place
		x, y   []float64
	}
	ask := func(m *member) (x, y []float64) {
		for _, p := range m.places {
			a, b := m.c.Project(p.lat, p.lon)
			x, y = append(x, a), append(y, b)
		}
		return
	}
	known := map[string]*member{}
	for k := 0; k < 1+rounds/20; k++ {
		rng := rand.New(rand.NewSource(seed*86028121 + int64(k)))
		places := make([]place, 8)
		for i := range places {
			places[i] = place{44 + 13*rng.Float64(), 20 * rng.Float64()}
		}
		var ms []*member
		review := func(m *member) {
			x, y := ask(m)
			for i := range x {
				n++
				if !sameF(x[i], m.x[i]) || !sameF(y[i], m.y[i]) {
					mismatch("a composite projects differently after others were made", map[string]interface{}{"composite": m.what, "place": fmt.Sprint(m.places[i]),
						"before": fmt.Sprint(m.x[i], m.y[i]), "after": fmt.Sprint(x[i], y[i])})
					return
				}
			}
			if d := same(m.c, m.copy); d != "" {
				mismatch("a composite changed after others were made: "+d, map[string]interface{}{"composite": m.what})
			}
		}
		for i := 0; i < 60; i++ {
			g := refs[rng.Intn(len(refs))]
			w, h := g[0], g[1]
			switch rng.Intn(6) {
			case 0:
				w, h = 2*w, 2*h
			case 1:
				w++
			default:
				for ; w%2 == 0 && h%2 == 0 && rng.Intn(3) > 0; w, h = w/2, h/2 {
				}
			}
			version := rng.Intn(7)
			label := pick(rng, []string{"RX", "WN", "FX", "PG", "QQ"})
			m := &member{what: fmt.Sprintf("%s %dx%d version %d", label, w, h, version)}
			if rng.Intn(4) == 0 {
				// local products, or any dimensions and encoding
				var f Frame
				if rng.Intn(2) == 0 {
					f = genFrame(rng, t, Opt{encs: []string{"one", "two"}, local: true, labels: []string{"PE", "PL", "PZ", "PX", "PR"}, maxW: 3, maxH: 3})
				} else {
					f = genFrame(rng, t, Opt{encs: []string{"one", "two", "run"}, maxW: 300, maxH: 300})
				}
				c, err, bad := parseGuarded(newSource(rng, f.file), patience())
				if bad != "" || classify(err) == "err" {
					mismatch("parse", map[string]interface{}{"file": bytesToInts(f.file), "got": bad + fmt.Sprint(err)})
					continue
				}
				m.what, m.c = fmt.Sprintf("%s %dx%d number %d", f.label, f.w, f.h, i), c
			} else if w*h > 90000 || rng.Intn(2) == 0 {
				m.what = "dummy " + m.what
				m.c = dummy(label, version, w, h)
			} else {
				body := make([]byte, w*h)
				for j := range body {
					body[j] = byte(j + j/7)
				}
				c, err, bad := parseGuarded(newSource(rng, makeVaried(rng, label, fmt.Sprintf("VS%2dGP%4dx%4d", version, h, w), body)), patience())
				if bad != "" || classify(err) == "err" {
					mismatch("parse", map[string]interface{}{"composite": m.what, "got": bad + fmt.Sprint(err)})
					continue
				}
				m.c = c
			}
			m.places, m.copy = places, copyOf(m.c)
			m.x, m.y = ask(m)
			// the same arguments gave this before
			key := fmt.Sprint(k, m.what)
			if o := known[key]; o == nil {
				known[key] = m
			} else {
				for j := range m.x {
					if !sameF(m.x[j], o.x[j]) || !sameF(m.y[j], o.y[j]) {
						mismatch("equal composites project differently", map[string]interface{}{"composite": m.what, "place": fmt.Sprint(places[j])})
						break
					}
				}
				if d := same(m.c, o.copy); d != "" {
					mismatch("equal input, different composites: "+d, map[string]interface{}{"composite": m.what})
				}
			}
			ms = append(ms, m)
			review(ms[rng.Intn(len(ms))])
		}
		for _, m := range ms {
			review(m)
		}
	}
	return
}

// apart holds composites of real size at the same time, most of them with large
// uniform parts, and writes into all of them: each keeps what was written into it,
// and later parses of the same bytes give what they gave before.
func apart(t *Tables, seed int64, rounds int) {
	type made struct {
		what string
		file []byte
		c    *radolan.Composite
		copy *radolan.Composite
	}
	n, sizes := 0, map[string]int{}
	for k := 0; k < rounds; k++ {
		rng := rand.New(rand.NewSource(seed*32452843 + int64(k)))
		var ms []*made
		add := func(label, post string, w, h, content, enc int) {
			var body []byte
			switch enc {
			case 1:
				body = bytes.Repeat([]byte{[]byte{250, 0, 77, 0}[content]}, w*h)
				if content == 3 {
					rng.Read(body)
				}
			case 2:
				body = bytes.Repeat([][]byte{{0xc4, 0x29}, {0, 0}, {77, 0x40}, {0, 0}}[content], w*h)
				if content == 3 {
					rng.Read(body)
				}
			case 0:
				post += "LV 3  1.0-31.5  7.0"
				for y := 0; y < h; y++ {
					switch row := []byte{byte(y%100 + 11), 16}; content {
					case 0:
						body = append(body, row[:1+y%2]...)
					case 1, 2:
						for x := 0; x < w; x += 15 {
							m := w - x
							if m > 15 {
								m = 15
							}
							row = append(row, byte(m<<4+content))
						}
						body = append(body, row...)
					default:
						body = append(body, genRow(rng, w, 3, false, false)...)
					}
					body = append(body, 10)
				}
			}
			file := makeVaried(rng, label, post, body)
			for i := 0; i < 2; i++ {
				what := fmt.Sprintf("%s %dx%d encoding %d content %d", label, w, h, enc, content)
				c, err, bad := parseGuarded(bytes.NewReader(file), patience())
				if bad != "" || classify(err) == "err" {
					mismatch("parse", map[string]interface{}{"composite": what, "got": bad + fmt.Sprint(err)})
					return
				}
				sizes[fmt.Sprintf("%dx%d", c.Px, c.Py)]++
				ms = append(ms, &made{what, file, c, copyOf(c)})
			}
		}
		for enc := 0; enc < 3; enc++ {
			add(pick(rng, []string{"PX", "PR", "PF", "OX", "PL", "PE", "PY"}), "", 200, 224, rng.Intn(4), enc)
			add("PX", "", 200, 224, 0, enc)
			w, h := []int{460, 900, 200, 100, 1400, 1100}[rng.Intn(6)], []int{460, 900, 900, 1, 2}[rng.Intn(5)]
			add(pick(rng, t.Known), fmt.Sprintf("GP%4dx%4d", h, w), w, h, rng.Intn(4), enc)
			w, h = 1+rng.Intn(30), 1+rng.Intn(30)
			add(pick(rng, t.Known), fmt.Sprintf("GP%4dx%4d", h, w), w, h, rng.Intn(3), enc)
			add(pick(rng, t.Known), fmt.Sprintf("GP%4dx%4d", h, w), w, h, rng.Intn(3), enc)
		}
		add(pick(rng, []string{"PZ", "PU"}), "", 200, 2400, rng.Intn(4), rng.Intn(3))
		// members of one archive, some of them with the same data
		var data [][]byte
		var members []member
		w, h := 1+rng.Intn(30), 1+rng.Intn(30)
		for i := 0; i < 6; i++ {
			body := make([]byte, w*h)
			if i%3 == 2 {
				rng.Read(body)
			}
			if rng.Intn(4) == 0 && i > 0 {
				data = append(data, data[i-1])
			} else {
				data = append(data, makeFrame("RX", fmt.Sprintf("VV %03dGP%4dx%4d", 5*i, h, w), body))
			}
			members = append(members, plainMember(rng, i, data[i]))
		}
		a := readArchive(bytes.NewReader(compress(join(tarChunks(members)), 1+rng.Intn(9))))
		if a.bad != "" || a.err != nil || len(a.cs) != len(data) {
			mismatch("archive", map[string]interface{}{"got": a.bad + fmt.Sprint(a.err), "composites": len(a.cs)})
			return
		}
		for i, c := range a.cs {
			ms = append(ms, &made{fmt.Sprintf("member %d of %dx%d", i, w, h), data[i], c, copyOf(c)})
		}
		all := func(m *made, f func(row []float32)) {
			for _, rows := range append(append([][][]float32{}, m.c.DataZ...), m.c.PlainData, m.c.Data) {
				for y := range rows {
					f(rows[y])
				}
			}
		}
		for i := range ms {
			all(ms[i], func(row []float32) {
				for x := range row {
					row[x] = float32(1000 + i)
				}
			})
		}
		for i, m := range ms {
			n++
			other := float32(0)
			all(m, func(row []float32) {
				for x := range row {
					if row[x] != float32(1000+i) {
						other = row[x]
					}
				}
			})
			if other != 0 {
				from := "something else"
				if j := int(other) - 1000; j >= 0 && j < len(ms) {
					from = ms[j].what
				}
				mismatch("writing into a composite changed another one", map[string]interface{}{"changed": m.what, "written": from, "value": fmt.Sprint(other), "seed": seed, "round": k})
				return
			}
			// every cell is one of its own
			for y, row := range m.c.PlainData {
				for x := range row {
					row[x] = float32(y*len(row) + x)
				}
			}
			for y, row := range m.c.PlainData {
				for x := range row {
					if row[x] != float32(y*len(row)+x) {
						mismatch("writing into a cell changed another one", map[string]interface{}{"composite": m.what, "x": x, "y": y, "seed": seed, "round": k})
						return
					}
					row[x] = float32(1000 + i)
				}
			}
			c, err, bad := parseGuarded(bytes.NewReader(m.file), patience())
			if bad != "" || classify(err) == "err" {
				mismatch("parse after composites were written into", map[string]interface{}{"composite": m.what, "got": bad + fmt.Sprint(err)})
				return
			}
			if d := same(c, m.copy); d != "" {
				mismatch("parse after composites were written into differs: "+d, map[string]interface{}{"composite": m.what, "seed": seed, "round": k})
				return
			}
		}
	}
	stat(map[string]interface{}{"replayed": n, "sizes": sizes})
}

// held parses very many composites, keeps all and compares them in the end with
// what they were when they were returned.
func held(t *Tables, seed int64, n int) {
	type kept struct {
		file    []byte
		c, then *radolan.Composite
	}
	ks := make([]kept, n)
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*49979687 + int64(i)))
		o := family(pick(rng, []string{"one", "two", "run", "mixed", "chunk"}), t)
		f := genFrame(rng, t, o)
		if i%5 == 0 { // many rows, then and later
			h := 100 + rng.Intn(300)
			body := make([]byte, 2*h)
			rng.Read(body)
			f.file = makeVaried(rng, pick(rng, t.Known), fmt.Sprintf("GP%4dx   1", h), body)
		}
		c, err, bad := parseGuarded(bytes.NewReader(f.file), patience())
		if bad != "" || classify(err) == "err" {
			return
		}
		ks[i] = kept{f.file, c, copyOf(c)}
	})
	compared, rows := 0, 0
	for i, k := range ks {
		if k.c == nil {
			continue
		}
		compared++
		rows += k.c.Py
		if what := same(k.c, k.then); what != "" {
			mismatch("a composite held for long has changed", map[string]interface{}{"index": i, "of": n, "what": what, "bytes": bytesToInts(k.file)})
			break
		}
	}
	if compared == 0 {
		die(fmt.Errorf("nothing held"))
	}
	stat(map[string]interface{}{"replayed": compared, "rows": rows})
}

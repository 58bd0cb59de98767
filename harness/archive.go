package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os/exec"
	"strings"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// compress writes a bzip2 stream.
func compress(data []byte, level int) []byte {
	for _, c := range [][]string{{"bzip2", "-c", fmt.Sprintf("-%d", level)}, {"python3", "-c", "import sys,bz2;sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read()))"}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = bytes.NewReader(data)
		out, err := cmd.Output()
		if err == nil {
			return out
		}
	}
	die(fmt.Errorf("no bzip2 compressor"))
	return nil
}

type member struct {
	name   string
	data   []byte
	format tar.Format // ustar if none
	flag   byte       // a regular file if none
}

// memberName varies what does not matter about a member.
func memberName(rng *rand.Rand, k int) string {
	n := fmt.Sprintf("m%02d_%d", rng.Intn(90), k)
	switch rng.Intn(16) {
	case 0:
		return "./" + n
	case 1:
		return "." + n
	case 2:
		return "sf/2016/" + n
	case 3:
		return "._" + n
	case 4:
		return "raa01-rw_10000-1606262150-dwd---bin"
	case 5:
		return n + pick(rng, []string{".gz", ".tmp", "~", ".txt", ".asc", ".md5"})
	case 6:
		return pick(rng, []string{"README", "pax_global_header", "..." + n, "Thumbs.db", "-", " " + n, "LICENSE"})
	case 7:
		return "/" + n
	case 8:
		return "__MACOSX/._" + n
	}
	return n
}

// plainMember and anyMember have varied names; anyMember has any of the formats of tar as well.
func plainMember(rng *rand.Rand, k int, data []byte) member {
	m := member{name: memberName(rng, k), data: data, format: tar.FormatUSTAR}
	if rng.Intn(12) == 0 {
		m.flag = tar.TypeCont
	}
	return m
}

func anyMember(rng *rand.Rand, k int, data []byte) member {
	m := plainMember(rng, k, data)
	if rng.Intn(3) == 0 {
		m.format = []tar.Format{tar.FormatPAX, tar.FormatGNU}[rng.Intn(2)]
		switch rng.Intn(4) {
		case 0:
			m.name = strings.Repeat("long/", 30) + m.name
		case 1:
			m.name = "Übersicht-" + m.name
		}
	}
	return m
}

// tarChunks returns the bytes of every member (header, data, padding) and of the end of the archive.
func tarChunks(ms []member) [][]byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	var out [][]byte
	last := 0
	for _, m := range ms {
		h := &tar.Header{Name: m.name, Mode: 0644, Size: int64(len(m.data)), Format: m.format, ModTime: time.Unix(1466978400, 0)}
		if m.format == tar.FormatUnknown {
			h.Format = tar.FormatUSTAR
		}
		switch m.flag {
		case 0:
		case tar.TypeDir:
			h.Typeflag, h.Name, h.Mode = m.flag, m.name+"/", 0755
		case tar.TypeSymlink, tar.TypeLink:
			h.Typeflag, h.Linkname = m.flag, "other"
		default:
			h.Typeflag = m.flag
		}
		if m.format == tar.FormatPAX && len(m.data)%3 == 0 {
			h.ModTime = time.Unix(1466978400, 123456789)
			h.PAXRecords = map[string]string{"comment": "radar"}
		}
		die(w.WriteHeader(h))
		_, err := w.Write(m.data)
		die(err)
		die(w.Flush())
		out = append(out, append([]byte{}, buf.Bytes()[last:]...))
		last = buf.Len()
	}
	die(w.Close())
	out = append(out, append([]byte{}, buf.Bytes()[last:]...))
	return out
}

func join(cs [][]byte) (b []byte) {
	for _, c := range cs {
		b = append(b, c...)
	}
	return
}

type archived struct {
	cs  []*radolan.Composite
	err error
	bad string
}

func readArchive(rd io.Reader) archived {
	done := make(chan archived, 1)
	go func() {
		var a archived
		defer func() {
			if r := recover(); r != nil {
				a.bad = "panic: " + fmt.Sprint(r)
			}
			done <- a
		}()
		a.cs, a.err = radolan.NewComposites(rd)
	}()
	select {
	case a := <-done:
		return a
	case <-time.After(patience()):
		hung()
		return archived{bad: "hang"}
	}
}

// same compares everything exported of two composites, NaN equal to NaN.
func same(a, b *radolan.Composite) string {
	switch {
	case a == nil || b == nil:
		return "nil"
	case a.Product != b.Product:
		return "Product"
	case !a.CaptureTime.Equal(b.CaptureTime), !a.ForecastTime.Equal(b.ForecastTime), a.Interval != b.Interval:
		return "times"
	case a.DataUnit != b.DataUnit:
		return "DataUnit"
	case a.Px != b.Px || a.Py != b.Py || a.Dx != b.Dx || a.Dy != b.Dy || a.Dz != b.Dz:
		return "dimensions"
	case !sameF(a.Rx, b.Rx) || !sameF(a.Ry, b.Ry):
		return "resolution"
	case a.HasProjection != b.HasProjection:
		return "HasProjection"
	case a.Format != b.Format:
		return "Format"
	case !sameRows(a.PlainData, b.PlainData):
		return "PlainData"
	case !sameRows(a.Data, b.Data):
		return "Data"
	case len(a.DataZ) != len(b.DataZ):
		return "DataZ"
	}
	for z := range a.DataZ {
		if !sameRows(a.DataZ[z], b.DataZ[z]) {
			return "DataZ"
		}
	}
	for _, p := range [][2]float64{{52, 10}, {47.5, 13.2}} {
		ax, ay := a.Project(p[0], p[1])
		bx, by := b.Project(p[0], p[1])
		if !sameF(ax, bx) || !sameF(ay, by) {
			return "projection"
		}
	}
	return ""
}

func sameF(a, b float64) bool { return a == b || (a != a && b != b) }

func sameRows(a, b [][]float32) bool {
	if len(a) != len(b) {
		return false
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return false
		}
		for x := range a[y] {
			if !sameCell(a[y][x], b[y][x]) {
				return false
			}
		}
	}
	return true
}

// memberFile makes a file of the given kind. Its forecast time is fc hours after a base;
// the capture times are in the opposite order. Members of real size are wanted sometimes.
func memberFile(rng *rand.Rand, t *Tables, kind string, fc int, real ...bool) []byte {
	label := pick(rng, t.Known)
	if kind == "unit" {
		label = pick(rng, t.unknown)
	}
	w, h := 1+rng.Intn(7), 1+rng.Intn(6)
	if rng.Intn(12) == 0 {
		w, h = 100+rng.Intn(300), 1+rng.Intn(60)
		if rng.Intn(8) == 0 {
			w, h = 460, 460
		}
	}
	enc := rng.Intn(3)
	if len(real) > 0 && real[0] {
		w, h, enc = []int{900, 1100, 1400}[rng.Intn(3)], []int{900, 1100, 1200, 1500}[rng.Intn(4)], 1
	}
	post := fmt.Sprintf("VS%2d", rng.Intn(6))
	var body []byte
	switch enc {
	case 0:
		body = make([]byte, w*h)
		rng.Read(body)
	case 1:
		body = make([]byte, 2*w*h)
		rng.Read(body)
	case 2:
		post += "LV 3  1.0-31.5  7.0"
		for y := 0; y < h; y++ {
			body = append(body, genRow(rng, w, 3, false, false)...)
			body = append(body, 10)
		}
	}
	if rng.Intn(2) == 0 {
		post += fmt.Sprintf("INT%4d", []int{5, 60, 15}[rng.Intn(3)])
	}
	post += fmt.Sprintf("GP%4dx%4d", h, w)
	cap := 12*60 - 5*fc - rng.Intn(3)*10*fc
	vv := 14*60 + 60*fc - cap
	post += fmt.Sprintf("VV %03d", vv)
	pre := label + fmt.Sprintf("26%02d%02d100000616BY", cap/60, cap%60)
	n := len(pre) + 7 + len(post) + 1 + len(body)
	if kind == "bad" {
		switch rng.Intn(4) {
		case 0: // declared length matches no encoding
			if enc == 2 {
				post += "E"
				pre = label + "99" + pre[4:]
			} else {
				n += 5 + w*h
			}
		case 1:
			pre = label + "261315100001316BY"
		case 2:
			return nil
		case 3:
			return []byte("no radar data at all")
		}
	}
	f := append([]byte(pre+fmt.Sprintf("%7d", n)+post+"\x03"), body...)
	switch kind {
	case "short":
		f = f[:len(f)-1-rng.Intn(len(body))]
	case "long":
		f = append(f, make([]byte, 1+rng.Intn(1200))...)
	}
	return f
}

// special tells the flags of the members that are no files; they cannot be parsed either.
func special(rng *rand.Rand, kind string) byte {
	switch kind {
	case "folder":
		return tar.TypeDir
	case "link":
		return []byte{tar.TypeSymlink, tar.TypeLink}[rng.Intn(2)]
	case "device":
		return []byte{tar.TypeFifo, tar.TypeChar, tar.TypeBlock}[rng.Intn(3)]
	}
	return 0
}

// compressAny compresses to one stream, or to several behind one another, as parallel compressors do.
// It also tells where streams end.
func compressAny(rng *rand.Rand, data []byte) (z []byte, ends map[int]bool) {
	ends = map[int]bool{}
	for rng.Intn(4) == 0 && len(data) > 0 {
		n := rng.Intn(len(data) + 1)
		z = append(z, compress(data[:n], 1+rng.Intn(9))...)
		ends[len(z)] = true
		data = data[n:]
	}
	return append(z, compress(data, 1+rng.Intn(9))...), ends
}

// padded fills whole records, as some writers do.
func padded(rng *rand.Rand, data []byte) []byte {
	if rng.Intn(2) == 0 {
		data = append(append([]byte{}, data...), make([]byte, 10240-len(data)%10240)...)
	}
	return data
}

// shown is what a replay file says about a stream; huge ones are made again from seed and index.
func shown(stream []byte) interface{} {
	if len(stream) > 200000 {
		return fmt.Sprintf("%d bytes", len(stream))
	}
	return bytesToInts(stream)
}

// fallible is a source that fails after the given bytes.
type fallible struct {
	rd   io.Reader
	err  error
	over bool
	rest []byte // what it delivers if it is asked again then
}

func (f *fallible) Read(p []byte) (int, error) {
	if f.over {
		n := copy(p, f.rest)
		f.rest = f.rest[n:]
		if n == 0 && len(p) > 0 {
			return 0, f.err
		}
		return n, nil
	}
	n, err := f.rd.Read(p)
	if err == io.EOF {
		f.over, err = true, f.err
	}
	return n, err
}

// replayArchives reads an archive for every behaviour of the specification.
func replayArchives(path string, t *Tables, seed int64) {
	type scen struct {
		Members []struct {
			Kind string `json:"kind"`
			Fc   int    `json:"fc"`
		} `json:"members"`
		Fault struct {
			Kind string `json:"kind"`
			At   int    `json:"at"`
		} `json:"fault"`
		Out string `json:"out"`
	}
	var scens []scen
	eachLine(path, func(line []byte) {
		var s scen
		die(json.Unmarshal(line, &s))
		scens = append(scens, s)
	})
	outs := map[string]int{}
	var mu sync.Mutex
	var sample interface{}
	real := 1 + len(scens)/24 // every so often a member has the size of a real composite
	each(len(scens), func(i int) {
		s := scens[i]
		rng := rand.New(rand.NewSource(seed*6700417 + int64(i)))
		var ms []member
		for k, m := range s.Members {
			mk := anyMember
			if s.Fault.Kind == "tarcut" {
				mk = plainMember
			}
			e := mk(rng, k, memberFile(rng, t, m.Kind, m.Fc, i%real == 7 && k == i/real%len(s.Members)))
			if flag := special(rng, m.Kind); flag != 0 || m.Kind == "empty" {
				e.data, e.flag = nil, flag
			}
			ms = append(ms, e)
		}
		chunks := tarChunks(ms)
		var stream, lost []byte
		f := s.Fault
		if f.Kind == "tarcut" {
			c := chunks[f.At-1]
			chunks = chunks[:f.At]
			cut := 1 + rng.Intn(511)
			if d := len(ms[f.At-1].data); d > 0 && rng.Intn(3) > 0 {
				cut = 512 + rng.Intn(d)
			}
			chunks[f.At-1] = c[:cut]
		}
		if rng.Intn(3) == 0 && f.Kind != "cut" && f.Kind != "break" {
			data := join(chunks)
			if f.Kind == "none" {
				data = padded(rng, data)
			}
			stream, _ = compressAny(rng, data)
		} else {
			// one compressed stream per member, so that the fault strikes a certain one
			for k, c := range chunks {
				z := compress(c, 1+rng.Intn(9))
				if f.Kind == "break" && f.At == k+1 && k == len(ms) && rng.Intn(2) == 0 {
					stream = append(stream, z...) // fails after the very last byte
					break
				}
				if (f.Kind == "cut" || f.Kind == "break") && f.At == k+1 {
					n := 1 + rng.Intn(len(z)-1)
					stream, lost = append(stream, z[:n]...), z[n:]
					break
				}
				stream = append(stream, z...)
			}
		}
		var rd io.Reader = newSource(rng, stream)
		rd.(*source).bound = 3000
		if rng.Intn(2) == 0 {
			var release func()
			rd, _, release = standardSource(rng.Intn(kindsOfSources), rng, stream)
			defer release()
		}
		if f.Kind == "break" {
			rd = &fallible{rd: rd, err: failing[rng.Intn(len(failing))], rest: lost}
		}
		a := readArchive(rd)
		mu.Lock()
		defer mu.Unlock()
		info := map[string]interface{}{"scenario": s, "archive": shown(stream), "seed": seed, "index": i, "got": a.bad + fmt.Sprint(a.err)}
		if a.bad != "" {
			mismatch("outcome", info)
			return
		}
		outs[s.Out+" "+f.Kind]++
		if (a.err == nil) != (s.Out == "ok") {
			mismatch("archive accepted or refused wrongly", info)
			return
		}
		if i%211 == 5 {
			sample = map[string]interface{}{"members": s.Members, "fault": f, "out": s.Out, "stream_bytes": len(stream)}
		}
		if s.Out == "err" {
			if len(a.cs) != 0 {
				mismatch("composites together with an error", info)
			}
			return
		}
		if len(a.cs) != len(ms) {
			info["composites"] = len(a.cs)
			mismatch("number of composites", info)
			return
		}
		used := make([]bool, len(ms))
		var last time.Time
		for k, c := range a.cs {
			if k > 0 && c.ForecastTime.Before(last) {
				mismatch("order of forecast times", info)
				return
			}
			last = c.ForecastTime
			found := false
			for j, m := range ms {
				if used[j] {
					continue
				}
				solo, err := radolan.NewComposite(bytes.NewReader(m.data))
				if err == nil && same(solo, c) == "" {
					used[j], found = true, true
					break
				}
			}
			if !found {
				info["position"] = k
				mismatch("composite equals no member", info)
				return
			}
		}
	})
	stat(map[string]interface{}{"replayed": len(scens), "outcomes": outs, "sample": sample})
}

// damaged reads archives with every truncation and with many flipped bits.
func damaged(t *Tables, seed int64, archives, flips int) {
	cutsN, flipsN, kept := 0, 0, 0
	var mu sync.Mutex
	each(archives, func(i int) {
		rng := rand.New(rand.NewSource(seed*32452843 + int64(i)))
		var ms []member
		members := 1 + i%4
		if i%16 == 11 {
			members = 12 + rng.Intn(28)
		}
		for k := 0; k < members; k++ {
			ms = append(ms, anyMember(rng, k, memberFile(rng, t, "good", k%25)))
		}
		z, ends := compressAny(rng, padded(rng, join(tarChunks(ms))))
		whole := readArchive(bytes.NewReader(z))
		info := func(what string, at int, a archived) {
			mu.Lock()
			mismatch(what, map[string]interface{}{"archive": bytesToInts(z), "at": at, "got": a.bad + fmt.Sprint(a.err), "composites": len(a.cs)})
			mu.Unlock()
		}
		if whole.bad != "" || whole.err != nil || len(whole.cs) != len(ms) {
			info("sound archive refused", -1, whole)
			return
		}
		step := 1 + len(z)/400
		for n := 0; ; n += step {
			if n > len(z) {
				if n == len(z)+step {
					break
				}
				n = len(z)
			}
			var rd io.Reader = bytes.NewReader(z[:n])
			if n == len(z) || ends[n] || rng.Intn(2) == 0 { // nothing is missing behind a complete stream
				rd = &fallible{rd: rd, err: failing[n%len(failing)], rest: z[n:]}
			}
			a := readArchive(rd)
			if a.bad != "" || a.err == nil || len(a.cs) != 0 {
				info("truncated archive accepted", n, a)
				return
			}
			mu.Lock()
			cutsN++
			mu.Unlock()
		}
		for k := 0; k < flips; k++ {
			d := append([]byte{}, z...)
			bit := rng.Intn(len(d) * 8)
			d[bit/8] ^= 1 << uint(bit%8)
			a := readArchive(bytes.NewReader(d))
			if a.bad != "" {
				info("damaged archive", bit, a)
				return
			}
			mu.Lock()
			flipsN++
			mu.Unlock()
			if a.err == nil {
				ok := len(a.cs) == len(whole.cs)
				for j := 0; ok && j < len(a.cs); j++ {
					ok = same(a.cs[j], whole.cs[j]) == ""
				}
				if !ok {
					info("flipped bit unnoticed", bit, a)
					return
				}
				mu.Lock()
				kept++
				mu.Unlock()
			}
		}
	})
	stat(map[string]interface{}{"replayed": cutsN + flipsN, "truncations": cutsN, "flips": flipsN, "flips_without_effect": kept, "archives": archives})
}

// archives records readings of random archives for the specification.
func archives(t *Tables, seed int64, n int, out string) {
	type line struct {
		ID      string  `json:"id"`
		Members [][]int `json:"members"`
		Stop    int     `json:"stop"`
		Outcome string  `json:"outcome"`
		Res     []Res   `json:"res"`
	}
	lines := make([]line, n)
	outs := map[string]int{}
	var mu sync.Mutex
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*15485863 + int64(i)))
		l := line{ID: fmt.Sprintf("archive-%d-%d", seed, i), Members: [][]int{}, Res: []Res{}}
		// all members have the same scale, since the order of the results is free
		run := rng.Intn(3) == 0
		var scale Scale
		var ms []member
		for k := rng.Intn(6); k > 0; k-- {
			o := Opt{encs: []string{"one", "two"}, maxW: 5, maxH: 4, times: rng.Intn(2) == 0, permute: true, unknown: rng.Intn(2) == 0, trailing: rng.Intn(2) == 0}
			if run {
				o.encs = []string{"run"}
			}
			if rng.Intn(9) == 0 {
				o.damage = "random"
			}
			f := genFrame(rng, t, o)
			for j := 0; len(ms) > 0 && f.scale != scale && j < 300; j++ {
				f = genFrame(rng, t, o)
			}
			if len(ms) > 0 && f.scale != scale {
				break
			}
			scale = f.scale
			ms = append(ms, anyMember(rng, k, f.file))
			l.Members = append(l.Members, bytesToInts(f.file))
		}
		chunks := tarChunks(ms)
		var stream []byte
		if len(ms) > 0 && rng.Intn(5) == 0 {
			l.Stop = 1 + rng.Intn(len(ms))
			for k, c := range chunks {
				z := compress(c, 9)
				if k+1 == l.Stop {
					stream = append(stream, z[:1+rng.Intn(len(z)-1)]...)
					break
				}
				stream = append(stream, z...)
			}
		} else {
			stream, _ = compressAny(rng, padded(rng, join(chunks)))
		}
		src := newSource(rng, stream)
		a := readArchive(src)
		switch {
		case a.bad != "":
			l.Outcome = "panic"
		case a.err != nil:
			l.Outcome = "err"
		default:
			l.Outcome = "ok"
		}
		for _, c := range a.cs {
			l.Res = append(l.Res, abstract(c, nil, scale))
		}
		lines[i] = l
		mu.Lock()
		outs[l.Outcome]++
		mu.Unlock()
	})
	tr := newTrace(out)
	for _, l := range lines {
		tr.put(l)
	}
	tr.close()
	stat(map[string]interface{}{"recorded": n, "outcomes": outs})
}

// heavy reads an archive of many megabytes: all members must be there.
func heavy(seed int64, members int) {
	rng := rand.New(rand.NewSource(seed * 7777777))
	var ms []member
	w, h := 1100, 1200
	var marks []byte
	for k := 0; k < members; k++ {
		body := make([]byte, 2*w*h)
		mark := byte(1 + rng.Intn(250))
		body[rng.Intn(w*h)*2], body[0] = 7, mark
		marks = append(marks, mark)
		ms = append(ms, plainMember(rng, k, makeFrame("WN", fmt.Sprintf("VV %03dGP%4dx%4d", 5*k, h, w), body)))
	}
	data := join(tarChunks(ms))
	z := compress(data, 9)
	a := readArchive(bytes.NewReader(z))
	info := map[string]interface{}{"members": members, "bytes": len(data), "got": a.bad + fmt.Sprint(a.err), "composites": len(a.cs), "seed": seed}
	if a.bad != "" || a.err != nil || len(a.cs) != members {
		mismatch("large archive", info)
	} else {
		for k, c := range a.cs {
			v := float64(marks[k])/2 - 32.5
			if c.Dx != w || c.Dy != h || c.ForecastTime.Sub(c.CaptureTime) != time.Duration(5*k)*time.Minute || math.Abs(float64(c.At(0, h-1))-v) > 1e-4 {
				info["position"] = k
				mismatch("large archive", info)
				break
			}
		}
	}
	stat(map[string]interface{}{"replayed": 1, "members": members, "bytes": len(data)})
}

// fuzzArchives reads damaged archives whose compression is sound.
func fuzzArchives(t *Tables, seed int64, n int) {
	outs := map[string]int{}
	var mu sync.Mutex
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*86028121 + int64(i)))
		var ms []member
		for k := rng.Intn(4); k > 0; k-- {
			f := genFrame(rng, t, family(pick(rng, []string{"one", "two", "run", "reject"}), t))
			ms = append(ms, plainMember(rng, k, f.file))
		}
		data := join(tarChunks(ms))
		for k := rng.Intn(4); k > 0; k-- {
			p := rng.Intn(len(data))
			switch rng.Intn(4) {
			case 0:
				data[p] = byte(rng.Intn(256))
			case 1:
				data = data[:p+1]
			case 2:
				q := rng.Intn(min(len(data)-p, 600))
				data = append(data[:p+1], data[p+q:]...)
			case 3:
				if p > 512 {
					p = 512 * rng.Intn(p/512)
				}
				data[p/512*512+rng.Intn(min(512, len(data)-p/512*512))] = byte(rng.Intn(256))
			}
		}
		if tooBig(data) {
			return
		}
		z := compress(data, 9)
		if rng.Intn(3) == 0 {
			z[rng.Intn(len(z))] ^= byte(1 + rng.Intn(255))
		}
		if rng.Intn(6) == 0 {
			z = z[:rng.Intn(len(z))]
		}
		a := readArchive(newSource(rng, z))
		mu.Lock()
		defer mu.Unlock()
		switch {
		case a.bad != "":
			mismatch(a.bad+" while reading an archive", map[string]interface{}{"archive": bytesToInts(z)})
		case a.err != nil:
			outs["err"]++
		default:
			outs["ok"]++
		}
	})
	stat(map[string]interface{}{"replayed": n, "outcomes": outs})
}

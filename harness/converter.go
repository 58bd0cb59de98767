package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// called is what a run of the converter left behind.
type called struct {
	code   int // -1: killed
	output string
}

func call(dir, binary string, args ...string) called {
	return callWith(nil, dir, binary, args...)
}

// callWith has a pipe with the input as standard input.
func callWith(input []byte, dir, binary string, args ...string) called {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, binary, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TMPDIR=" + dir, "HOME=" + dir, "TZ=Asia/Kolkata"} // any zone but the one of the times
	if input != nil {
		cmd.Stdin = bytes.NewReader(input)
	}
	b, err := cmd.CombinedOutput()
	c := called{0, string(b)}
	if ctx.Err() != nil {
		return called{-1, "killed after 120 s"}
	}
	if err != nil {
		e, ok := err.(*exec.ExitError)
		if !ok {
			die(err)
		}
		c.code = e.ExitCode()
	}
	return c
}

func decodePNG(path string) (image.Image, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err.Error()
	}
	r := bytes.NewReader(b)
	img, err := png.Decode(r)
	if err != nil {
		return nil, "no PNG: " + err.Error()
	}
	if r.Len() > 0 {
		return nil, fmt.Sprintf("%d bytes after the PNG", r.Len())
	}
	return img, ""
}

func rgba(img image.Image, x, y int) color.RGBA {
	b := img.Bounds()
	return color.RGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.RGBA)
}

type convertScen struct {
	Job struct {
		Args              int
		By, Input, Output string
	}
	File []int
	Exit string
	Out  string
	Said bool
	Told []struct {
		Product []int
		Unit    string
		Fc      int
		Extent  []int
	}
	Verdict string
	Picture [][]fixedColour
}

const oldContent = "what was there before"

// converts replays calls of the converter.
func converts(path, binary, dir string) {
	var scens []convertScen
	eachLine(path, func(line []byte) {
		var s convertScen
		die(json.Unmarshal(line, &s))
		scens = append(scens, s)
	})
	counts := map[string]int{}
	var mu sync.Mutex
	var sample interface{}
	each(len(scens), func(i int) {
		s := scens[i]
		d := filepath.Join(dir, fmt.Sprintf("call-%d", i))
		die(os.Mkdir(d, 0755))
		defer os.RemoveAll(d)
		// what the files are called does not matter
		name := rand.New(rand.NewSource(int64(i)))
		inName := pick(name, []string{"input.bin", "input", "raa01-rx_10000-1606262150-dwd---bin", "x.gz", "x.bz2", "x.tar.bz2", "in.png", "FX_001", "-in", "in put", "größe.dat"})
		outName := pick(name, []string{"picture.png", "picture.png", "picture", "picture.PNG", "picture.jpg", "pic.ture.gif", "-", "--help", "a b.png", "out.bin", ".png", "Bild-ä.png"})
		in, out := filepath.Join(d, inName), filepath.Join(d, outName)
		file := intsToBytes(s.File)
		if s.Job.Input == "@directory" {
			die(os.Mkdir(in, 0755))
		} else if s.Job.Input != "@missing" {
			die(os.WriteFile(in, file, 0644))
		}
		old := []byte(oldContent)
		switch s.Job.Output {
		case "old":
			old = bytes.Repeat(old, 400)
			die(os.WriteFile(out, old, 0644))
		case "nodir":
			out = filepath.Join(d, "no", "such", "picture.png")
		case "dir":
			die(os.Mkdir(out, 0755))
		case "full":
			die(os.Symlink("/dev/full", out))
		case "self":
			out, old = in, file
		}
		var piped []byte
		from := in
		switch s.Job.By {
		case "link":
			from = filepath.Join(d, "link")
			die(os.Symlink(inName, from))
		case "pipe":
			from, piped = "/dev/stdin", append([]byte{}, file...)
		}
		info := map[string]interface{}{"args": s.Job.Args, "by": s.Job.By, "input": s.Job.Input, "output": s.Job.Output, "file": s.File, "names": []string{inName, outName}}
		if name.Intn(2) == 0 { // relative to where it runs; a dash alone, or before, would mean something else to many programs
			if r, err := filepath.Rel(d, out); err == nil && r[0] != '-' {
				out = r
			}
			if r, err := filepath.Rel(d, from); err == nil && r[0] != '-' && s.Job.By != "pipe" {
				from = r
			}
		}
		got := callWith(piped, d, binary, []string{from, out, filepath.Join(d, "more.png"), "-v"}[:s.Job.Args]...)
		info["exit"], info["said"] = got.code, got.output
		if !filepath.IsAbs(out) {
			out = filepath.Join(d, out)
		}
		bad := func(what string) {
			mu.Lock()
			defer mu.Unlock()
			mismatch("converter: "+what, info)
		}
		mu.Lock()
		counts[s.Exit+" "+s.Out]++
		if sample == nil && s.Out == "picture" {
			sample = info
		}
		mu.Unlock()
		if got.code == -1 || strings.Contains(got.output, "panic:") || strings.Contains(got.output, "goroutine ") {
			bad("crash or hang")
			return
		}
		if s.Said {
			if !strings.Contains(strings.ToLower(got.output), "usage") {
				bad("no usage")
			}
		} else if s.Exit == "bad" && got.code == 0 || s.Exit == "good" && got.code != 0 {
			info["want"] = s.Exit
			bad("exit code")
		}
		for _, t := range s.Told {
			if line := strings.SplitN(got.output, "\n", 2)[0]; !strings.HasPrefix(line, string(intsToBytes(t.Product))) || !strings.Contains(line, "("+t.Unit+")") || !tells(line, t.Fc) || len(t.Extent) == 0 && extentTold.MatchString(got.output) {
				info["want"] = t
				bad("what it tells about the input")
			}
		}
		st, err := os.Lstat(out)
		switch {
		case s.Out == "none" && (s.Job.Output == "fresh" || s.Job.Output == "nodir"):
			if err == nil {
				bad("an output was created")
			}
		case s.Out == "none" && s.Job.Output == "dir":
			if err != nil || !st.IsDir() {
				bad("the directory was replaced")
			}
		case s.Out == "old":
			if b, _ := os.ReadFile(out); !bytes.Equal(b, old) {
				bad("the old output was touched")
			}
		case s.Out == "picture":
			img, why := decodePNG(out)
			if why != "" {
				bad(why)
				return
			}
			if img.Bounds().Dx() != len(s.Picture[0]) || img.Bounds().Dy() != len(s.Picture) {
				info["size"] = fmt.Sprint(img.Bounds())
				bad("size of the picture")
				return
			}
			for y, row := range s.Picture {
				for x, want := range row {
					if got := rgba(img, x, y); !want.agrees(got) {
						info["x"], info["y"], info["got"], info["want"] = x, y, fmt.Sprint(got), want.String()
						bad("pixel of the picture")
						return
					}
				}
			}
		}
		// the input is only read
		if b, err := os.ReadFile(in); s.Job.Output != "self" && s.Job.Input[0] != '@' && (err != nil || !bytes.Equal(b, file)) {
			bad("the input was changed")
		}
	})
	stat(map[string]interface{}{"replayed": len(scens), "ends": counts, "sample": sample})
}

// a time as told by the converter; without a zone it is in UTC
var timeTold = regexp.MustCompile(`(\d{4}-\d{2}-\d{2})[ T](\d{2}:\d{2})(?::\d{2})? ?([+-]\d{2}):?(\d{2})?`)
var timeToldUTC = regexp.MustCompile(`(\d{4}-\d{2}-\d{2})[ T](\d{2}:\d{2})`)

// tells is whether the line tells the time.
func tells(line string, minutes int) bool {
	for _, m := range timeTold.FindAllStringSubmatch(line, -1) {
		if m[4] == "" {
			m[4] = "00"
		}
		t, err := time.Parse("2006-01-02 15:04 -0700", m[1]+" "+m[2]+" "+m[3]+m[4])
		if err == nil {
			if t.Unix() == int64(minutes)*60 {
				return true
			}
			return false
		}
	}
	for _, m := range timeToldUTC.FindAllStringSubmatch(line, -1) {
		if t, err := time.Parse("2006-01-02 15:04", m[1]+" "+m[2]); err == nil && t.Unix() == int64(minutes)*60 {
			return true
		}
	}
	return false
}

// the extent of a grid in kilometres, as told by the converter
var extentTold = regexp.MustCompile(`([0-9.]+) *km[^0-9]*([0-9.]+) *km`)

func near1(text string, km int) bool {
	f, err := strconv.ParseFloat(text, 64)
	return err == nil && f > float64(km)-0.11 && f < float64(km)+0.11
}

type pictureQuestion struct {
	scaleQuestion
	Unit  string
	Top   int // for mm
	Prec  int
	Enc   string
	Codes []int
	Nan   []int
}

// pictures converts frames of real size and compares all pixels.
func pictures(answers, asked, borderPath, tablesPath, gridPath, binary, dir string, seed int64, n int) {
	recognised, _ := loadGrids(gridPath)
	t := loadTables(tablesPath)
	b, err := os.ReadFile(asked)
	die(err)
	var qs []pictureQuestion
	die(json.Unmarshal(b, &qs))
	want := make([]map[int]fixedColour, len(qs))
	eachLine(answers, func(line []byte) {
		var a scaleAnswer
		die(json.Unmarshal(line, &a))
		if a.Row >= 0 {
			return
		}
		m := map[int]fixedColour{}
		for j, c := range a.Colours {
			m[qs[a.Asked-1].Codes[j]] = c
		}
		for _, c := range qs[a.Asked-1].Nan {
			m[c] = fixedColour{} // black
		}
		want[a.Asked-1] = m
	})
	for i := range qs {
		qs[i].Codes = append(qs[i].Codes, qs[i].Nan...)
	}
	var border [][2]float64
	b, err = os.ReadFile(borderPath)
	die(err)
	die(json.Unmarshal(b, &border))
	for i := range border {
		border[i][0] /= 1e6
		border[i][1] /= 1e6
	}
	grids := [][3]int{{900, 900, 3}, {450, 450, 0}, {225, 225, 4}, {900, 1100, 3}, {1100, 1200, 5}, {1100, 1200, 3}, {550, 600, 5}, {275, 300, 7}, {700, 750, 3}, {350, 375, 2}, {115, 115, 3}, {460, 460, 3}, {920, 920, 3}, {225, 275, 1}, {1400, 1500, 3}, {1800, 1800, 3}}
	units := map[string][]string{}
	for _, l := range t.Known {
		units[t.Units[l]] = append(units[t.Units[l]], l)
	}
	var mu sync.Mutex
	pixels, overlays, projected := 0, 0, 0
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*6700417 + int64(i)))
		q := rng.Intn(len(qs))
		s := qs[q]
		label := pick(rng, units[s.Unit])
		w, h, version := 1+rng.Intn(200), 1+rng.Intn(200), rng.Intn(9)
		dims := true
		dy, rows := h, []int(nil) // rows: plain rows of layer 0 if it is only a part
		switch {
		case i%3 == 0:
			g := grids[(i/3)%len(grids)]
			w, h, version = g[0], g[1], g[2]
			dy = h
		case i%12 == 1:
			w, h, version = 1400, 1500, 5 // no projection for it
			if rng.Intn(2) == 0 {
				w, h = 900, 900
			}
			dy = h
		case t.local[label] && rng.Intn(2) == 0:
			l := t.Layouts[label]
			w, h, dims, dy, rows = l.Px, l.Py, false, l.Dy, l.Layers[0]
		}
		minutes := -1
		if s.Unit == "mm" {
			choices := map[int][]int{100: {-1, 0, 5, 59, 60}, 200: {61, 70, 1440, 2880, 10070, 10079}, 400: {10080, 10090, 43200, 99990}}[s.Top]
			minutes = choices[rng.Intn(len(choices))]
			if t.Minutes[label] == 10 {
				if minutes%10 != 0 && minutes != -1 {
					minutes = map[int]int{100: 60, 200: 70, 400: 10080}[s.Top]
				}
				if minutes > 0 {
					minutes /= 10
				}
			}
		}
		post := fmt.Sprintf("VS%2dE%+03d", version, s.Prec)
		if minutes >= 0 {
			post += fmt.Sprintf("INT%4d", minutes)
		}
		if dims {
			post += fmt.Sprintf("GP%4dx%4d", h, w)
		}
		size := 1
		if s.Enc == "two" {
			size = 2
		}
		body := make([]byte, w*h*size)
		cell := func(r, x int) int {
			if size == 1 {
				return int(body[r*w+x])
			}
			return int(body[2*(r*w+x)]) + 256*int(body[2*(r*w+x)+1])
		}
		for j := 0; j < w*h; j++ {
			c := s.Codes[rng.Intn(len(s.Codes))]
			if size == 1 {
				body[j] = byte(c)
			} else {
				body[2*j], body[2*j+1] = byte(c), byte(c>>8)
			}
		}
		file := makeVaried(rng, label, post, body)
		d := filepath.Join(dir, fmt.Sprintf("picture-%d", i))
		die(os.Mkdir(d, 0755))
		defer os.RemoveAll(d)
		die(os.WriteFile(filepath.Join(d, "in"), file, 0644))
		got := call(d, binary, "in", "out.png")
		info := map[string]interface{}{"label": label, "post": post, "w": w, "h": h, "unit": s.Unit, "enc": s.Enc, "case": i, "said": got.output}
		bad := func(what string) {
			mu.Lock()
			defer mu.Unlock()
			mismatch("picture: "+what, info)
		}
		if got.code != 0 {
			info["exit"] = got.code
			bad("conversion failed")
			return
		}
		// the extent of the grid is told if there is one
		extent := extentTold.FindStringSubmatch(got.output)
		if methodOf(recognised, w, dy, version) == "none" {
			if extent != nil {
				bad("the extent of a grid is told without projection")
				return
			}
		} else {
			ref := recognised[[2]int{w, dy}].Ref
			if extent == nil || !near1(extent[1], ref[0]) || !near1(extent[2], ref[1]) {
				info["want"] = ref
				bad("the extent told of the grid")
				return
			}
		}
		img, why := decodePNG(filepath.Join(d, "out.png"))
		if why != "" {
			bad(why)
			return
		}
		if img.Bounds().Dx() != w || img.Bounds().Dy() != dy {
			info["size"] = fmt.Sprint(img.Bounds())
			bad("size of the picture")
			return
		}
		// where border and mesh may be and have to be
		const (
			borderMay = 1 << iota
			borderMust
			meshMay
		)
		var marks []byte
		if c := dummy(label, version, w, dy); c.HasProjection {
			marks = make([]byte, w*dy)
			put := func(lat, lon float64, may, must byte) {
				x, y := place(c, lat, lon)
				const eps = 1e-6
				cols := map[[2]int]bool{}
				for _, ex := range []float64{-eps, 0, eps} {
					for _, ey := range []float64{-eps, 0, eps} {
						cols[[2]int{int(x + ex), int(y + ey)}] = true
					}
				}
				for p := range cols {
					if p[0] >= 0 && p[1] >= 0 && p[0] < w && p[1] < dy {
						marks[p[1]*w+p[0]] |= may
						if len(cols) == 1 && x >= 0 && y >= 0 {
							marks[p[1]*w+p[0]] |= must
						}
					}
				}
			}
			for _, p := range border {
				put(p[0], p[1], borderMay, borderMust)
			}
			for e := 10; e <= 160; e++ {
				for n := 460; n <= 550; n++ {
					if e%10 <= 1 || n%10 <= 1 {
						put(float64(n)/10, float64(e)/10, meshMay, 0)
					}
				}
			}
			// a line for every whole degree, drawn at it or a tenth of a degree beside it
			at := func(n, e int) (int, bool) {
				x, y := place(c, float64(n)/10, float64(e)/10)
				if !(x >= 0 && y >= 0 && x < float64(w) && y < float64(dy)) || int(x-1e-6) != int(x+1e-6) || int(y-1e-6) != int(y+1e-6) {
					return 0, false
				}
				return int(y)*w + int(x), true
			}
			isMesh := func(k int) bool {
				got := rgba(img, k%w, k/w)
				return got == color.RGBA{0x33, 0xFF, 0x22, 0xFF} || marks[k]&borderMay != 0 && got == color.RGBA{0xFF, 0xFF, 0x00, 0xFF}
			}
			near := func(n, e, n2, e2 int) bool {
				a, ok := at(n, e)
				b, ok2 := at(n2, e2)
				return !ok || !ok2 || isMesh(a) || isMesh(b)
			}
			missing := 0
			for e := 10; e < 160; e++ {
				for n := 460; n < 550; n++ {
					if e%10 == 0 && !near(n, e, n, e+1) || n%10 == 0 && !near(n, e, n+1, e) {
						missing++
					}
				}
			}
			if missing > 0 {
				info["missing"] = missing
				bad("mesh points missing")
				return
			}
			mu.Lock()
			projected++
			mu.Unlock()
		}
		over := 0
		for y := 0; y < dy; y++ {
			for x := 0; x < w; x++ {
				p := y // plain row
				if rows != nil {
					p = rows[y]
				}
				code := cell(h-1-p, x)
				got := rgba(img, x, y)
				var m byte
				if marks != nil {
					m = marks[y*w+x]
				}
				cellColour := want[q][code].agrees(got)
				isBorder := got == color.RGBA{0xFF, 0xFF, 0x00, 0xFF}
				isMesh := got == color.RGBA{0x33, 0xFF, 0x22, 0xFF}
				ok := cellColour || isBorder && m&borderMay != 0 || isMesh && m&meshMay != 0
				if m&borderMust != 0 && !isBorder && !(isMesh && m&meshMay != 0) {
					ok = false
				}
				if isBorder || isMesh {
					over++
				}
				if !ok {
					info["x"], info["y"], info["code"], info["got"], info["want"], info["marks"] = x, y, code, fmt.Sprint(got), want[q][code].String(), m
					bad("pixel")
					return
				}
			}
		}
		mu.Lock()
		pixels += w * dy
		overlays += over
		mu.Unlock()
	})
	stat(map[string]interface{}{"replayed": n, "pixels": pixels, "overlay_pixels": overlays, "projected": projected, "scales": len(qs)})
}

// atOnce makes many conversions at the same time in one directory; every one
// writes the picture it writes alone.
func atOnce(binary, dir string, seed int64, rounds int) {
	n := 0
	for k := 0; k < rounds; k++ {
		rng := rand.New(rand.NewSource(seed*15485863 + int64(k)))
		d := filepath.Join(dir, fmt.Sprintf("at-once-%d", k))
		die(os.Mkdir(d, 0755))
		var alone []image.Image
		var said []string
		for i := 0; i < 16; i++ {
			w, h := 50+rng.Intn(600), 50+rng.Intn(600)
			if i%4 == 0 {
				w, h = 900, 900
			}
			body := make([]byte, w*h)
			rng.Read(body)
			die(os.WriteFile(filepath.Join(d, fmt.Sprintf("in%d", i)), makeVaried(rng, "RX", fmt.Sprintf("GP%4dx%4d", h, w), body), 0644))
			c := call(d, binary, fmt.Sprintf("in%d", i), fmt.Sprintf("alone%d.png", i))
			img, why := decodePNG(filepath.Join(d, fmt.Sprintf("alone%d.png", i)))
			if c.code != 0 || why != "" {
				mismatch("conversion", map[string]interface{}{"exit": c.code, "said": c.output, "picture": why})
				return
			}
			alone, said = append(alone, img), append(said, c.output)
		}
		got := make([]called, len(alone))
		var wg sync.WaitGroup
		for i := range alone {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				got[i] = call(d, binary, fmt.Sprintf("in%d", i), fmt.Sprintf("out%d.png", i))
			}(i)
		}
		wg.Wait()
		for i := range alone {
			n++
			img, why := decodePNG(filepath.Join(d, fmt.Sprintf("out%d.png", i)))
			if why == "" && img.Bounds() != alone[i].Bounds() {
				why = "another size"
			}
			if why == "" {
				b := img.Bounds()
				for y := 0; y < b.Dy() && why == ""; y++ {
					for x := 0; x < b.Dx(); x++ {
						if rgba(img, x, y) != rgba(alone[i], x, y) {
							why = fmt.Sprintf("another pixel at %d, %d", x, y)
							break
						}
					}
				}
			}
			if why != "" || got[i].code != 0 || got[i].output != said[i] {
				mismatch("conversions at the same time", map[string]interface{}{"exit": got[i].code, "said": got[i].output, "picture": why, "seed": seed, "round": k, "conversion": i})
				return
			}
		}
		die(os.RemoveAll(d))
	}
	stat(map[string]interface{}{"replayed": n})
}

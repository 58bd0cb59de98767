package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// Abstraction of real results to the values the specification speaks about.

const (
	NA      = 99999999 // cell is NaN
	offGrid = 88888888 // cell is no value the scale can produce
)

// Scale says what an abstract cell m means: m*10^Exp, for dBZ half of it minus 32.5.
type Scale struct {
	Exp int  `json:"exp"`
	Dbz bool `json:"dbz"`
}

func (s Scale) phys(m int) float64 {
	v := float64(m) * math.Pow(10, float64(s.Exp))
	if s.Dbz {
		return v/2 - 32.5
	}
	return v
}

// tol bounds the rounding of single precision arithmetic for cell m.
func (s Scale) tol(m int) float64 {
	v := math.Abs(float64(m) * math.Pow(10, float64(s.Exp)))
	if s.Dbz {
		v += 65
	}
	return v / (1 << 21)
}

func (s Scale) agrees(f float32, m int) bool {
	if m == NA {
		return f != f
	}
	return math.Abs(float64(f)-s.phys(m)) <= s.tol(m)
}

func (s Scale) abs(f float32) int {
	if f != f {
		return NA
	}
	v := float64(f)
	if s.Dbz {
		v = (v + 32.5) * 2
	}
	m := math.Round(v / math.Pow(10, float64(s.Exp)))
	if math.Abs(m) > 70000000 || !s.agrees(f, int(m)) {
		return offGrid
	}
	return int(m)
}

// Res is what a parse returned.
type Res struct {
	E       string    `json:"e"`
	Outcome string    `json:"outcome"` // ok, unit, err, panic, hang
	Product []int     `json:"product"`
	Unit    string    `json:"unit"`
	Cap     int       `json:"cap"`
	Fc      int       `json:"fc"`
	Int     int       `json:"int"`
	Fmt     int       `json:"fmt"`
	Px      int       `json:"px"`
	Py      int       `json:"py"`
	Dx      int       `json:"dx"`
	Dy      int       `json:"dy"`
	Dz      int       `json:"dz"`
	Res     int       `json:"res"` // 0 NaN, 1, 2 km, 3 anything else
	Proj    bool      `json:"proj"`
	Plain   [][]int   `json:"plain"`
	Z       [][][]int `json:"z"`
	Alias   bool      `json:"alias"`
	detail  string
}

func clamp(n int) int {
	if n > 1000000000 {
		return 1000000000
	}
	if n < -1000000000 {
		return -1000000000
	}
	return n
}

func minutes(t time.Time) int {
	u := t.Unix()
	if u%60 != 0 || t.Nanosecond() != 0 {
		return 1999999999
	}
	return clamp(int(u / 60))
}

func durMinutes(d time.Duration) int {
	if d%time.Minute != 0 {
		return 1999999999
	}
	return clamp(int(d / time.Minute))
}

// unitName is the specification's name of a unit; a unit is printed by its name.
func unitName(u radolan.Unit) string {
	names := map[radolan.Unit]string{radolan.Unit_unknown: "unknown", radolan.Unit_mm: "mm", radolan.Unit_dBZ: "dBZ", radolan.Unit_km: "km", radolan.Unit_mps: "m/s"}
	name, ok := names[u]
	if !ok {
		return "?"
	}
	printed := name
	if u == radolan.Unit_unknown {
		printed = "unknown unit"
	}
	if got := fmt.Sprint(u); got != printed {
		return name + ", printed as " + got
	}
	return name
}

func sameCell(a, b float32) bool { return a == b || (a != a && b != b) }

func resClass(rx, ry float64) int {
	switch {
	case rx != rx && ry != ry:
		return 0
	case rx == 1 && ry == 1:
		return 1
	case rx == 2 && ry == 2:
		return 2
	case rx > 0 && ry > 0:
		return 3
	}
	return 4
}

func bytesToInts(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

func intsToBytes(b []int) []byte {
	r := make([]byte, len(b))
	for i, v := range b {
		r[i] = byte(v)
	}
	return r
}

func absRows(s Scale, rows [][]float32) [][]int {
	out := make([][]int, len(rows))
	for y := range rows {
		out[y] = make([]int, len(rows[y]))
		for x := range rows[y] {
			out[y][x] = s.abs(rows[y][x])
		}
	}
	return out
}

func absLayers(s Scale, z [][][]float32) [][][]int {
	out := make([][][]int, len(z))
	for i := range z {
		out[i] = absRows(s, z[i])
	}
	return out
}

func aliasOK(c *radolan.Composite) bool {
	if len(c.DataZ) == 0 || len(c.Data) != len(c.DataZ[0]) {
		return false
	}
	for y := range c.Data {
		if len(c.Data[y]) != len(c.DataZ[0][y]) {
			return false
		}
		for x := range c.Data[y] {
			if !sameCell(c.Data[y][x], c.DataZ[0][y][x]) {
				return false
			}
		}
	}
	return true
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == radolan.ErrUnknownUnit || errors.Is(err, radolan.ErrUnknownUnit):
		return "unit"
	}
	return "err"
}

// abstract projects a returned composite to the specification's values.
func abstract(c *radolan.Composite, err error, s Scale) (r Res) {
	r = Res{E: "ret", Outcome: classify(err), Product: []int{}, Plain: [][]int{}, Z: [][][]int{}}
	if r.Outcome == "err" {
		r.detail = err.Error()
		return
	}
	if c == nil {
		r.Outcome, r.detail = "panic", "nil composite without error"
		return
	}
	r.Product = bytesToInts([]byte(c.Product))
	r.Unit = unitName(c.DataUnit)
	r.Cap, r.Fc, r.Int = minutes(c.CaptureTime), minutes(c.ForecastTime), durMinutes(c.Interval)
	r.Fmt = clamp(c.Format)
	r.Px, r.Py, r.Dx, r.Dy, r.Dz = c.Px, c.Py, c.Dx, c.Dy, c.Dz
	r.Res, r.Proj = resClass(c.Rx, c.Ry), c.HasProjection
	if c.HasProjection && r.Res != 0 && r.Res != 4 {
		r.Res = 3 // the value is judged by the projection checks
	}
	r.Plain = absRows(s, c.PlainData)
	r.Z = absLayers(s, c.DataZ)
	r.Alias = aliasOK(c)
	return
}

type parsed struct {
	c   *radolan.Composite
	err error
	pan interface{}
}

// parseGuarded runs NewComposite, turning panics and hangs into values.
func parseGuarded(rd io.Reader, limit time.Duration) (c *radolan.Composite, err error, bad string) {
	done := make(chan parsed, 1)
	go func() {
		var p parsed
		defer func() {
			if r := recover(); r != nil {
				p.pan = r
			}
			done <- p
		}()
		p.c, p.err = radolan.NewComposite(rd)
	}()
	select {
	case p := <-done:
		if p.pan != nil {
			return nil, nil, "panic: " + fmt.Sprint(p.pan)
		}
		return p.c, p.err, ""
	case <-time.After(limit):
		hung()
		return nil, nil, "hang"
	}
}

func run(rd io.Reader, s Scale) Res {
	c, err, bad := parseGuarded(rd, patience())
	if bad != "" {
		o := "panic"
		if bad == "hang" {
			o = "hang"
		}
		return Res{E: "ret", Outcome: o, Product: []int{}, Plain: [][]int{}, Z: [][][]int{}, detail: bad}
	}
	return abstract(c, err, s)
}

// reporting

var (
	failures       int
	mostMismatches = 20
	mismatchMux    sync.Mutex
)

func mismatch(what string, detail interface{}) {
	mismatchMux.Lock()
	defer mismatchMux.Unlock()
	failures++
	if failures > mostMismatches {
		return
	}
	b, err := json.Marshal(map[string]interface{}{"what": what, "case": detail})
	if err != nil { // numbers that JSON does not know
		b, _ = json.Marshal(map[string]interface{}{"what": what, "case": fmt.Sprint(detail)})
	}
	fmt.Println("MISMATCH " + string(b))
}

func stat(kv map[string]interface{}) {
	b, err := json.Marshal(kv)
	if err != nil {
		delete(kv, "sample")
		b, err = json.Marshal(kv)
		die(err)
	}
	fmt.Println("STAT " + string(b))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

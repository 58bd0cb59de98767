package main

import (
	"encoding/json"
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"os"
	"sync"

	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

type fixedColour [3]Fixed

// agrees with an intensity when the byte is the scaled number, rounded in some direction.
func level(b uint8, want float64) bool { return math.Abs(float64(b)-255*want) <= 1.001 }

func (f fixedColour) agrees(c color.RGBA) bool {
	return c.A == 255 && level(c.R, f[0].float()) && level(c.G, f[1].float()) && level(c.B, f[2].float())
}

func (f fixedColour) String() string {
	return fmt.Sprintf("{%.2f %.2f %.2f}", 255*f[0].float(), 255*f[1].float(), 255*f[2].float())
}

// rounded values of the specification compare like single bytes.
type scaleAnswer struct {
	Row     int
	Of      int
	Heat    []fixedColour
	Asked   int
	Name    string
	Colours []fixedColour
}

type scaleQuestion struct {
	Name, Kind, Comp string
	Min, Max         decimal
	Values           []decimal
}

var predefinedScales = map[string]vis.ColorFunc{
	"HeatmapReflectivityShort": vis.HeatmapReflectivityShort,
	"HeatmapReflectivity":      vis.HeatmapReflectivity,
	"HeatmapReflectivityWide":  vis.HeatmapReflectivityWide,
	"HeatmapAccumulatedHour":   vis.HeatmapAccumulatedHour,
	"HeatmapAccumulatedDay":    vis.HeatmapAccumulatedDay,
	"HeatmapRadialVelocity":    vis.HeatmapRadialVelocity,
	"GraymapLinear":            vis.GraymapLinear,
	"GraymapLinearWide":        vis.GraymapLinearWide,
}

func makeScale(kind, comp string, min, max float64) vis.ColorFunc {
	f := vis.Id
	if comp == "log" {
		f = vis.Log
	}
	switch kind {
	case "heat":
		return vis.Heatmap(min, max, f)
	case "gray":
		return vis.Graymap(min, max, f)
	case "radial":
		return vis.Radialmap(min, max, f)
	}
	die(fmt.Errorf("kind of scale %s", kind))
	return nil
}

func loadScales(path string) (q []scaleQuestion) {
	b, err := os.ReadFile(path)
	die(err)
	die(json.Unmarshal(b, &q))
	return
}

var black = color.RGBA{0, 0, 0, 255}

// guarded calls of a colour function; bad tells about a panic.
func tint(f vis.ColorFunc, v float64) (c color.RGBA, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	defer busy()()
	return f(v), ""
}

func colourOf(f vis.ColorFunc, v float64) (c color.RGBA, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	return f(v), ""
}

// palettes compares colours of scales with the specification's.
func palettes(answers, asked string, seed int64, n int) {
	q := loadScales(asked)
	var heat []fixedColour
	compared := 0
	var sample interface{}
	type known struct {
		f    vis.ColorFunc
		s    scaleQuestion
		want []fixedColour
	}
	var all []known
	eachLine(answers, func(line []byte) {
		var a scaleAnswer
		die(json.Unmarshal(line, &a))
		if a.Row >= 0 {
			if heat == nil {
				heat = make([]fixedColour, a.Of+1)
			}
			per := a.Of / 60
			for j, h := range a.Heat {
				heat[a.Row*per+j] = h
			}
			return
		}
		s := q[a.Asked-1]
		f, ok := predefinedScales[s.Name]
		if !ok {
			f = makeScale(s.Kind, s.Comp, s.Min.float(), s.Max.float())
		}
		all = append(all, known{f, s, a.Colours})
		for j, want := range a.Colours {
			v := s.Values[j].float()
			got, bad := tint(f, v)
			compared++
			if bad != "" || !want.agrees(got) {
				mismatch("colour of a value", map[string]interface{}{"scale": s.Name, "kind": s.Kind, "comp": s.Comp, "min": s.Min.float(), "max": s.Max.float(), "value": v, "got": fmt.Sprint(got, bad), "want": want.String()})
				return
			}
			if sample == nil {
				sample = map[string]interface{}{"scale": s.Name, "value": v, "colour": got}
			}
		}
	})
	if heat == nil || compared == 0 {
		die(fmt.Errorf("nothing compared"))
	}
	// a colour does not depend on what other scales were asked before
	order := rand.New(rand.NewSource(seed * 15485863))
	for i := 0; i < 40*len(all); i++ {
		k := all[order.Intn(len(all))]
		j := order.Intn(len(k.want))
		v := k.s.Values[j].float()
		for m := order.Intn(3); m >= 0; m-- {
			tint(all[order.Intn(len(all))].f, v)
		}
		compared++
		if got, bad := tint(k.f, v); bad != "" || !k.want[j].agrees(got) {
			mismatch("colour of a value after other scales", map[string]interface{}{"scale": k.s.Name, "kind": k.s.Kind, "comp": k.s.Comp, "min": k.s.Min.float(), "max": k.s.Max.float(), "value": v, "got": fmt.Sprint(got, bad), "want": k.want[j].String()})
			break
		}
	}
	// nor on who else asks at the same time
	var wg sync.WaitGroup
	var lock sync.Mutex
	together := 0
	for r := 0; r < n/60+len(predefinedScales)+20; r++ {
		k := all[order.Intn(len(all))]
		if r < len(all) {
			k = all[r]
		}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(rng *rand.Rand) {
				defer wg.Done()
				vs := make([]float64, len(k.want))
				for j := range vs {
					vs[j] = k.s.Values[j].float()
				}
				for i := 0; i < 20000; i++ {
					j := rng.Intn(len(vs))
					if got, bad := colourOf(k.f, vs[j]); bad != "" || !k.want[j].agrees(got) {
						lock.Lock()
						mismatch("colour of a value asked at the same time", map[string]interface{}{"scale": k.s.Name, "kind": k.s.Kind, "comp": k.s.Comp, "min": k.s.Min.float(), "max": k.s.Max.float(), "value": k.s.Values[j].float(), "got": fmt.Sprint(got, bad), "want": k.want[j].String()})
						lock.Unlock()
						return
					}
				}
			}(rand.New(rand.NewSource(seed*86028121 + int64(r*8+g))))
		}
		free := busy()
		wg.Wait()
		free()
		together += 160000
	}
	last := len(heat) - 1
	rng := rand.New(rand.NewSource(seed * 701408733))
	type comp struct {
		name     string
		f, inv   func(float64) float64
		lo, span float64 // limits are drawn from here
		zero     float64 // no argument below has a compressed value
	}
	inf := math.Inf(1)
	comps := []comp{
		{"id", vis.Id, vis.Id, -50, 400, -inf},
		{"log", vis.Log, math.Exp, 0.01, 90, 0},
		{"sqrt", math.Sqrt, func(x float64) float64 { return x * x }, 0, 300, 0},
		{"cube", func(x float64) float64 { return x * x * x }, math.Cbrt, -3, 9, -inf},
		{"double", func(x float64) float64 { return 2*x + 7 }, func(x float64) float64 { return (x - 7) / 2 }, -20, 90, -inf},
		{"dB", func(x float64) float64 { return 10 * math.Log10(x) }, func(x float64) float64 { return math.Pow(10, x/10) }, 0.1, 20, 0},
	}
	positions, orders, odd := 0, 0, 0
	for i := 0; i < n; i++ {
		cp := comps[i%len(comps)]
		min := cp.lo + cp.span*rng.Float64()
		max := min + (cp.span/20+1)*(0.1+10*rng.Float64())
		cmin, cmax := cp.f(min), cp.f(max)
		kinds := []struct {
			name string
			f    vis.ColorFunc
		}{{"heat", vis.Heatmap(min, max, cp.f)}, {"gray", vis.Graymap(min, max, cp.f)}}
		for _, k := range kinds {
			info := map[string]interface{}{"kind": k.name, "comp": cp.name, "min": min, "max": max}
			bad := func(what string, v float64, got color.RGBA, want interface{}) {
				info["value"], info["got"], info["want"] = fmt.Sprint(v), fmt.Sprint(got), fmt.Sprint(want)
				mismatch(what, info)
			}
			at := func(p float64) float64 { return cp.inv(cmin + p*(cmax-cmin)) }
			for j := 0; j < 60; j++ {
				e := 1 + rng.Intn(last-1)
				v := at(float64(e) / float64(last))
				got, oops := tint(k.f, v)
				positions++
				good := heat[e].agrees(got)
				if k.name == "gray" {
					p := float64(e) / float64(last)
					good = level(got.R, p) && got.R == got.G && got.G == got.B && got.A == 255
				}
				if oops != "" || !good {
					bad("colour of a position "+oops, v, got, heat[e])
					break
				}
			}
			// order
			prev, _ := tint(k.f, at(0.0001))
			for j := 1; j < 40; j++ {
				v := at(0.0001 + float64(j)/40)
				got, oops := tint(k.f, v)
				orders++
				light := func(c color.RGBA) int {
					a, b := int(c.R), int(c.R)
					for _, x := range []int{int(c.G), int(c.B)} {
						if x > a {
							a = x
						}
						if x < b {
							b = x
						}
					}
					return a + b
				}
				if oops != "" || light(got) < light(prev)-1 || k.name == "gray" && got.R < prev.R {
					bad("lightness does not grow "+oops, v, got, prev)
					break
				}
				prev = got
			}
			// ends
			top, _ := tint(k.f, max)
			if !(fixedColour{heat[last][0], heat[last][1], heat[last][2]}).agrees(top) && k.name == "heat" || k.name == "gray" && top != (color.RGBA{255, 255, 255, 255}) {
				bad("colour of the maximum", max, top, heat[last])
			}
			for j := 0; j < 25; j++ {
				v := []float64{math.Nextafter(max, inf), max + 1e-6*math.Abs(max), max + rng.Float64(), max + 1e9*rng.Float64(), max * 1e30, inf}[j%6]
				if v < max {
					continue
				}
				got, oops := tint(k.f, v)
				odd++
				for _, d := range []int{int(got.R) - int(top.R), int(got.G) - int(top.G), int(got.B) - int(top.B), int(got.A) - 255} {
					if oops != "" || d < -1 || d > 1 {
						bad("colour beyond the maximum "+oops, v, got, top)
						break
					}
				}
				v = []float64{min - 1e-6*(1+math.Abs(min)), min - rng.Float64() - 1e-6, -1e30, -inf, math.NaN(), min - 100*rng.Float64() - 1e-6}[j%6]
				if cp.name == "id" && j%6 == 0 {
					v = math.Nextafter(min, -inf)
				}
				got, oops = tint(k.f, v)
				odd++
				if oops != "" || got != black {
					bad("colour below the minimum or of NaN "+oops, v, got, black)
				}
			}
			for j := 0; j < 200; j++ {
				v := math.Float64frombits(rng.Uint64())
				got, oops := tint(k.f, v)
				odd++
				want := ""
				switch {
				case oops != "":
					want = oops
				case got.A != 255:
					want = "opaque"
				case (v != v || v < min && cp.f(v) < cmin) && got != black:
					want = "black"
				}
				if want != "" {
					bad("colour of an odd number", v, got, want)
				}
			}
		}
		// radial
		min, max = -(1.3 + 60*rng.Float64()), 1.3+60*rng.Float64()
		if rng.Intn(4) == 0 {
			min = -max
		}
		if rng.Intn(6) == 0 {
			min = 0
		}
		base := math.Max(math.Abs(min), max)
		if cp.name == "double" || base < 1.3 {
			continue
		}
		f := vis.Radialmap(min, max, cp.f)
		info := map[string]interface{}{"kind": "radial", "comp": cp.name, "min": min, "max": max}
		bad := func(what string, v float64, got color.RGBA, want interface{}) {
			info["value"], info["got"], info["want"] = fmt.Sprint(v), fmt.Sprint(got), fmt.Sprint(want)
			mismatch(what, info)
		}
		expect := func(v float64) (lev, non float64) {
			if math.Abs(v) <= 1 {
				return 1, 0.8
			}
			return math.Min(1, cp.f(math.Abs(v))/cp.f(base)), 0
		}
		for j := 0; j < 120; j++ {
			v := (2*rng.Float64() - 1) * base * 1.1
			switch rng.Intn(12) {
			case 0:
				v = float64(1 - 2*rng.Intn(2))
			case 1:
				v = (2*rng.Float64() - 1) * 1.2
			case 2:
				v = []float64{0, math.Copysign(0, -1), inf, -inf, base, -base, min, max, 1e300, -1e300, 1e-300, -1e-300, 5e-324}[rng.Intn(13)]
			case 3:
				if v = math.Float64frombits(rng.Uint64()); v != v {
					v = 2
				}
			}
			got, oops := tint(f, v)
			positions++
			lev, non := expect(v)
			a, b, c := got.R, got.G, got.B
			if v < 0 {
				// cyan: the other two
				if got.A != 255 || oops != "" || !level(a, non) || !level(b, lev) || b != c {
					bad("colour of a velocity "+oops, v, got, []float64{non, lev, lev})
				}
			} else if got.A != 255 || oops != "" || !level(a, lev) || !level(b, non) || b != c {
				bad("colour of a velocity "+oops, v, got, []float64{lev, non, non})
			}
		}
		if got, oops := tint(f, math.NaN()); oops != "" || got != black {
			bad("NaN "+oops, math.NaN(), got, black)
		}
	}
	for name, f := range predefinedScales {
		for j := 0; j < 3000; j++ {
			v := math.Float64frombits(rng.Uint64())
			if j == 0 {
				v = math.NaN()
			}
			if got, oops := tint(f, v); oops != "" || got.A != 255 || v != v && got != black {
				mismatch("odd number "+oops, map[string]interface{}{"scale": name, "value": fmt.Sprint(v), "got": fmt.Sprint(got)})
				break
			}
			odd++
		}
	}
	stat(map[string]interface{}{"replayed": compared + positions, "values": compared, "asked_together": together, "positions": positions, "orders": orders, "odd_numbers": odd, "sample": sample})
}

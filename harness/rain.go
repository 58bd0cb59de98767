package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"

	"gitlab.cs.fau.de/since/radolan"
)

// decimal is degrees, ten thousandths, hundred millionths: the floor first.
type decimal [3]int64

func (d decimal) float() float64 { return float64(d[0]) + (float64(d[1])*10000+float64(d[2]))/1e8 }

var published = map[string]radolan.ZR{
	"Aniol80":          radolan.Aniol80,
	"Doelling98":       radolan.Doelling98,
	"JossWaldvogel70":  radolan.JossWaldvogel70,
	"MarshallPalmer55": radolan.MarshallPalmer55,
}

// rain compares the conversions between rate and reflectivity with the specification's.
func rain(answers, asked string, seed int64, dense int) {
	var q struct {
		Dbz   []decimal
		Rates []struct {
			M decimal
			K int
		}
	}
	b, err := os.ReadFile(asked)
	die(err)
	die(json.Unmarshal(b, &q))
	nan32 := float32(math.NaN())
	n, rels, steps := 0, 0, 0
	var sample interface{}
	type answer struct {
		Name  string
		A, B  Fixed
		Rates [][2]json.RawMessage
		Dbz   []Fixed
	}
	var all []answer
	var made []radolan.ZR // all of them exist before the first is used
	eachLine(answers, func(line []byte) {
		var a answer
		die(json.Unmarshal(line, &a))
		all = append(all, a)
		rel, fixed := published[a.Name]
		if !fixed {
			rel = radolan.NewZR(a.A.float(), a.B.float())
		}
		made = append(made, rel)
	})
	judge := func(a answer, rel radolan.ZR) {
		rels++
		info := map[string]interface{}{"name": a.Name, "a": a.A.float(), "b": a.B.float()}
		bad := func(what string, in, got, want interface{}) {
			info["in"], info["got"], info["want"] = fmt.Sprint(in), fmt.Sprint(got), fmt.Sprint(want)
			mismatch(what, info)
		}
		for j, d := range q.Dbz {
			var m Fixed
			var k int
			die(json.Unmarshal(a.Rates[j][0], &m))
			die(json.Unmarshal(a.Rates[j][1], &k))
			want := m.float() * math.Pow10(k)
			in := float32(d.float())
			got := radolan.PrecipitationRate(rel, in)
			n++
			if !(math.Abs(got-want) <= 1e-9*want) {
				bad("rate", in, got, want)
				return
			}
			if back := radolan.Reflectivity(rel, got); !(math.Abs(float64(back)-float64(in)) <= 1e-6+math.Abs(float64(in))/(1<<22)) {
				bad("there and back", in, back, in)
				return
			}
			if sample == nil {
				sample = map[string]interface{}{"relation": a.Name, "dBZ": in, "rate": got}
			}
		}
		for j, r := range q.Rates {
			in := r.M.float() * math.Pow10(r.K)
			want := a.Dbz[j].float()
			got := float64(radolan.Reflectivity(rel, in))
			n++
			if !(math.Abs(got-want) <= 1e-6+math.Abs(want)/(1<<22)) {
				bad("reflectivity", in, got, want)
				return
			}
		}
		if v := radolan.PrecipitationRate(rel, nan32); v == v {
			bad("rate of NaN", "NaN", v, "NaN")
		}
		if v := radolan.Reflectivity(rel, math.NaN()); v == v {
			bad("reflectivity of NaN", "NaN", v, "NaN")
		}
		if v := radolan.Reflectivity(rel, 0); !math.IsInf(float64(v), -1) {
			bad("reflectivity of no rain", 0, v, "-Inf")
		}
		if v := radolan.PrecipitationRate(rel, float32(math.Inf(-1))); v != 0 {
			bad("rate of -Inf", "-Inf", v, 0)
		}
		// strictly increasing from one number to the next
		rng := rand.New(rand.NewSource(seed*31 + int64(rels)))
		for i := 0; i < dense; i++ {
			x := float32(rng.Float64()*130 - 40)
			y := math.Nextafter32(x, 1000)
			if rng.Intn(2) == 0 {
				y = x + float32(rng.Float64()*0.01+1e-4)
			}
			if y-x < 1e-9 {
				continue
			}
			steps++
			if rx, ry := radolan.PrecipitationRate(rel, x), radolan.PrecipitationRate(rel, y); !(rx < ry) {
				bad("not increasing", []float32{x, y}, []float64{rx, ry}, "increasing")
				return
			}
		}
	}
	for i := range all {
		judge(all[i], made[i])
	}
	// conversions at the same time
	var wg sync.WaitGroup
	var lock sync.Mutex
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(rng *rand.Rand) {
			defer wg.Done()
			for i := 0; i < 10*dense; i++ {
				k := rng.Intn(len(all))
				if i%40 < 30 {
					k = i / 40 % 4
				}
				a, rel := all[k], made[k]
				what, in, got, want, slack := "", 0.0, 0.0, 0.0, 0.0
				if j := rng.Intn(len(q.Dbz)); rng.Intn(2) == 0 {
					var m Fixed
					var e int
					die(json.Unmarshal(a.Rates[j][0], &m))
					die(json.Unmarshal(a.Rates[j][1], &e))
					what, in, want = "rate", float64(float32(q.Dbz[j].float())), m.float()*math.Pow10(e)
					got, slack = radolan.PrecipitationRate(rel, float32(in)), 1e-9*want
				} else {
					j := rng.Intn(len(q.Rates))
					what, in, want = "reflectivity", q.Rates[j].M.float()*math.Pow10(q.Rates[j].K), a.Dbz[j].float()
					got, slack = float64(radolan.Reflectivity(rel, in)), 1e-6+math.Abs(want)/(1<<22)
				}
				if !(math.Abs(got-want) <= slack) {
					lock.Lock()
					mismatch(what+" while others convert", map[string]interface{}{"name": a.Name, "a": a.A.float(), "b": a.B.float(), "in": in, "got": fmt.Sprint(got), "want": want})
					lock.Unlock()
					return
				}
			}
		}(rand.New(rand.NewSource(seed*7 + int64(g))))
	}
	free := busy()
	wg.Wait()
	free()
	if n == 0 {
		die(fmt.Errorf("nothing compared"))
	}
	stat(map[string]interface{}{"replayed": n, "relations": rels, "steps": steps, "sample": sample})
}

package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"
	"sync"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// paint numbers the colours returned by a colour function.
type paint struct{ base uint32 } // 256: opaque, otherwise translucent

func (p paint) colour(id int) color.RGBA {
	n := uint32(id)
	b := p.base
	a := uint8(b - 1)
	return color.RGBA{uint8(n % b), uint8(n / b % b), uint8(n / b / b % b), a}
}

func (p paint) id(c color.RGBA) int {
	if c == (color.RGBA{}) {
		return 0
	}
	if uint32(c.A) != p.base-1 {
		return -1
	}
	return int(c.R) + int(p.base)*(int(c.G)+int(p.base)*int(c.B))
}

// voxels makes a composite of the given size whose cells are all different.
func voxels(rng *rand.Rand, dx, dy, dz int) *radolan.Composite {
	c := &radolan.Composite{Product: "PG", Dx: dx, Dy: dy, Dz: dz, Px: dx, Py: dy * dz}
	perm := rng.Perm(dx*dy*dz + 8)
	n := 0
	c.PlainData = make([][]float32, dy*dz)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, dx)
	}
	for z := 0; z < dz; z++ {
		c.DataZ = append(c.DataZ, c.PlainData[z*dy:(z+1)*dy])
		for y := 0; y < dy; y++ {
			for x := 0; x < dx; x++ {
				c.DataZ[z][y][x] = float32(perm[n])*0.37 - 9
				n++
			}
		}
		if dx*dy > 0 && rng.Intn(3) == 0 {
			c.DataZ[z][rng.Intn(dy)][rng.Intn(dx)] = float32(math.NaN())
		}
		if dx*dy > 0 && rng.Intn(4) == 0 {
			c.DataZ[z][rng.Intn(dy)][rng.Intn(dx)] = float32(math.Inf(1 - 2*rng.Intn(2)))
		}
	}
	if dz > 0 {
		c.Data = c.DataZ[0]
	}
	return c
}

func key(v float64) uint64 {
	if v != v {
		return 0x7ff8000000000001
	}
	return math.Float64bits(v)
}

func render(fn vis.ColorFunc, c *radolan.Composite, layer int) (img *image.RGBA, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	defer busy()()
	return vis.Image(fn, c, layer), ""
}

type rasterLine struct {
	ID      string         `json:"id"`
	Job     map[string]int `json:"job"`
	Calls   [][2]int       `json:"calls"`
	Bounds  []int          `json:"bounds"`
	Image   [][]int        `json:"image"`
	Outcome string         `json:"outcome"`
}

// raster records renderings of small composites.
func raster(seed int64, n int, out string) {
	tr := newTrace(out)
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(seed*2971215073 + int64(i)))
		dx, dy, dz := 1+rng.Intn(6), 1+rng.Intn(6), 1+rng.Intn(4)
		layer := rng.Intn(dz)
		var c *radolan.Composite
		switch i % 5 {
		case 0:
			layer = []int{-1, dz, dz + 1, -dz, 1 << 40, -1 << 40}[rng.Intn(6)]
			c = voxels(rng, dx, dy, dz)
		case 1:
			c, dz = dummy("RX", 3, dx, dy), 0
			layer = rng.Intn(3) - 1
		default:
			c = voxels(rng, dx, dy, dz)
		}
		cells := map[uint64]int{}
		if layer >= 0 && layer < dz {
			for y := 0; y < dy; y++ {
				for x := 0; x < dx; x++ {
					cells[key(float64(c.DataZ[layer][y][x]))] = 1 + x + y*dx
				}
			}
		}
		p := paint{[]uint32{256, 256, 200}[rng.Intn(3)]}
		l := rasterLine{ID: fmt.Sprintf("raster-%d-%d", seed, i), Calls: [][2]int{}, Image: [][]int{}, Bounds: []int{}}
		far := layer
		if layer > 1000 || layer < -1000 {
			far = -1 // numbers of TLC are small
		}
		l.Job = map[string]int{"dx": dx, "dy": dy, "dz": dz, "layer": far}
		ids := rng.Perm(4000)
		var mu sync.Mutex
		before := copyOf(c)
		img, bad := render(func(v float64) color.RGBA {
			mu.Lock()
			defer mu.Unlock()
			id := 1 + ids[len(l.Calls)%len(ids)]
			l.Calls = append(l.Calls, [2]int{cells[key(v)], id})
			return p.colour(id)
		}, c, layer)
		l.Outcome = "ok"
		if bad != "" {
			l.Outcome = bad
		} else {
			b := img.Bounds()
			l.Bounds = []int{b.Min.X, b.Min.Y, b.Max.X, b.Max.Y}
			for y := 0; y < dy; y++ {
				row := []int{}
				for x := 0; x < dx; x++ {
					row = append(row, p.id(img.RGBAAt(x, y)))
				}
				l.Image = append(l.Image, row)
			}
			if s := same(before, c); s != "" {
				l.Outcome = "composite changed: " + s
			}
		}
		tr.put(l)
	}
	tr.close()
	stat(map[string]interface{}{"recorded": n})
}

// volumes renders parsed composites of real size with all their layers.
func volumes(t *Tables, seed int64, n int) {
	images, pixels := 0, 0
	var mu sync.Mutex
	var labels []string
	for _, l := range t.Known {
		if t.local[l] {
			labels = append(labels, l)
		}
	}
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*1134903170 + int64(i)))
		label, post := pick(rng, labels), ""
		lay := t.Layouts[label]
		w, h := lay.Px, lay.Py
		if i%3 == 0 {
			w, h = 1+rng.Intn(500), 1+rng.Intn(500)
			if i%9 == 0 { // wide or tall
				w, h = 1+rng.Intn(12), []int{9999, 8193, 4097, 5000 + rng.Intn(4999), 1000 + rng.Intn(4000)}[i/9%5]
				if i%2 == 0 {
					w, h = h, w
				}
			}
			label, post = pick(rng, t.Known), fmt.Sprintf("GP%4dx%4d", h, w)
		}
		body := make([]byte, w*h)
		rng.Read(body)
		c, err, bad := parseGuarded(newSource(rng, makeVaried(rng, label, post, body)), patience())
		if i%8 == 1 { // very many layers
			w, h = 1+rng.Intn(4), 1+rng.Intn(4)
			label, bad, err = "made by hand", "", nil
			c = voxels(rng, w, h, []int{255, 256, 257, 300, 1000 + rng.Intn(3000), 100 + rng.Intn(600)}[i/8%6])
		}
		info := map[string]interface{}{"label": label, "w": w, "h": h}
		if bad != "" || classify(err) == "err" {
			info["got"] = bad + fmt.Sprint(err)
			mismatch("not parsed", info)
			return
		}
		for z := -1; z <= c.Dz; z++ {
			colours := map[uint64]color.RGBA{}
			calls := map[uint64]int{}
			total := 0
			var lock sync.Mutex
			salt := rng.Uint32()
			img, bad := render(func(v float64) color.RGBA {
				lock.Lock()
				defer lock.Unlock()
				k := key(v)
				calls[k]++
				total++
				h := uint32(k>>32)*2654435761 ^ uint32(k)*40503 ^ salt
				col := color.RGBA{uint8(h), uint8(h >> 8), uint8(h >> 16), 255}
				colours[k] = col
				return col
			}, c, z)
			info["layer"], info["layers"] = z, c.Dz
			if bad != "" {
				info["got"] = bad
				mismatch("rendering", info)
				return
			}
			if img.Bounds() != image.Rect(0, 0, c.Dx, c.Dy) {
				info["got"] = fmt.Sprint(img.Bounds())
				mismatch("size of the image", info)
				return
			}
			inside := z >= 0 && z < c.Dz
			want := 0
			for y := 0; y < c.Dy; y++ {
				for x := 0; x < c.Dx; x++ {
					got := img.RGBAAt(x, y)
					if !inside {
						if got != (color.RGBA{}) {
							mismatch("image of no layer is not blank", info)
							return
						}
						continue
					}
					want++
					k := key(float64(c.DataZ[z][y][x]))
					calls[k]--
					if got != colours[k] {
						info["x"], info["y"], info["got"], info["want"] = x, y, fmt.Sprint(got), fmt.Sprint(colours[k])
						mismatch("pixel", info)
						return
					}
				}
			}
			for _, n := range calls {
				if n != 0 {
					info["got"] = fmt.Sprint(total, " calls for ", want, " cells")
					mismatch("calls of the colour function", info)
					return
				}
			}
			mu.Lock()
			images++
			pixels += c.Dx * c.Dy
			mu.Unlock()
		}
	})
	stat(map[string]interface{}{"replayed": images, "pixels": pixels})
}

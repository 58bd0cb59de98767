package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
)

// Random frames. This is input generation only: what a frame means is
// decided by the specification.

type Tables struct {
	DBZ     []string          `json:"dbz"`
	Known   []string          `json:"known"`
	Local   []string          `json:"local"`
	One     []int             `json:"one"`
	Two     []int             `json:"two"`
	Rows    map[string][]int  `json:"rows"` // "enc/height" -> plain row (from 0) of each transmitted row
	Units   map[string]string `json:"units"`
	Minutes map[string]int    `json:"minutes"`
	Layouts map[string]Layout `json:"layouts"`

	dbz   map[string]bool
	known map[string]bool
	local map[string]bool

	unknown []string // labels outside the catalogue
}

type Layout struct {
	Px     int     `json:"px"`
	Py     int     `json:"py"`
	Dx     int     `json:"dx"`
	Dy     int     `json:"dy"`
	Res    int     `json:"res"`
	Layers [][]int `json:"layers"`
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

type field struct{ key, text string }

type Opt struct {
	encs     []string // one, two, run
	labels   []string // nil: random
	local    bool     // allow local products (200 x 224 ...)
	maxW     int
	maxH     int
	wide     int // one in wide frames is very wide (0: never)
	permute  bool
	unknown  bool // unknown fields in between
	pads     bool
	times    bool
	damage   string // "", "random": one random damage
	plainHdr bool   // minimal header
	rawRows  bool   // random bytes as run-length rows
	trailing bool
}

type Frame struct {
	file   []byte
	scale  Scale
	label  string
	hdrLen int
	w, h   int
	enc    string
	damage string
	body   []byte
	short  bool // body is incomplete
}

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

func pad(r *rand.Rand, pads bool, n, w int) string {
	if !pads {
		return fmt.Sprintf("%*d", w, n)
	}
	switch r.Intn(3) {
	case 0:
		return fmt.Sprintf("%*d", w+r.Intn(3), n)
	case 1:
		return fmt.Sprintf("%0*d", w, n)
	}
	return fmt.Sprintf("%d", n)
}

var stations = []string{"boo", "ros", "emd", "hnr", "umd", "pro", "ess", "fld", "drs", "neu", "nhb", "oft", "eis", "tur", "isn", "fbg", "mem"}

// unknown keys never collide with the defined ones
func unknownField(r *rand.Rand) field {
	keys := []string{"MF", "SW", "CS", "MX", "Q", "XY", "ZZTOP", "U", "HPR", "P", "DW", "AB", "VVV", "GPX", "B", "Y", "G", "L", "V", "INTX", "EE", "BYE", "LVL", "BGG",
		"AVV", "XE", "DBY", "SLV", "XVS", "SBG", "MINT", "IN", "NT", "VSE", "EVS", "INTVV", "PE", "PG", "ETX"}
	texts := []string{" 00000002", "   2.13.1", "0", " 0", "30000", " ", " 4711", "-12", "<boo,ros> ", ".", " 999x999", "  5", "12 1 2 3", "+01",
		" gp0900x0900", " vv060 int0005", " bg002003 e-02 vs 5", " by0000100", " lv 1  1.0", "<e,int,vv,gp,by>", " \"x\" \\ ;=&", "{[(7)]}", "   0.1   0.2", "\t7", " größe", " 10°", "µ", "<ß,ü> ", " §7 ÷ 2", "é"}
	return field{pick(r, keys), pick(r, texts)}
}

// station is the number of the radar station, or of all of them.
func station(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return "10000"
	}
	return pick(r, []string{"10132", "10169", "10339", "10908", "10950", "10410", "10204", "00000", "99999", fmt.Sprintf("%05d", r.Intn(100000)), fmt.Sprintf("10%03d", r.Intn(1000))})
}

// software is a version of the software, means the mean fields taken.
func software(r *rand.Rand) string {
	return pick(r, []string{"   2.13.1", fmt.Sprintf("%9s", fmt.Sprintf("%d.%d.%d", r.Intn(4), r.Intn(41), r.Intn(11))), fmt.Sprintf(" P2%05d%d", r.Intn(3000), r.Intn(10))[:9]})
}

func means(r *rand.Rand) string {
	return pick(r, []string{" 00000002", fmt.Sprintf(" %08d", r.Intn(17)), fmt.Sprintf(" %08b", r.Intn(256)), " 00000001", " 00000000"})
}

func stationList(r *rand.Rand) string {
	var l []string
	for i := r.Intn(len(stations)); i > 0; i-- {
		s := pick(r, stations)
		if r.Intn(3) == 0 {
			s += fmt.Sprintf(" %d", r.Intn(101))
		}
		l = append(l, s)
	}
	s := strings.Join(l, ",")
	return fmt.Sprintf("%3d<%s>", len(s)+2, s)
}

// makeVaried makes a frame like makeFrame, of any station and time, with any of the
// fields that have no influence.
func makeVaried(r *rand.Rand, label, post string, body []byte) []byte {
	day, month := randomTime(r, false)
	for _, x := range []field{{"SW", software(r)}, {"MF", means(r)}, {"MS", stationList(r)}, {"CS", fmt.Sprint(r.Intn(3))}, {"MX", fmt.Sprintf(" %d", r.Intn(20))}} {
		if r.Intn(3) > 0 || strings.Contains(post, x.key) {
			continue
		}
		if r.Intn(2) == 0 {
			post += x.key + x.text
		} else {
			post = x.key + x.text + post
		}
	}
	pre := label + day + station(r) + month + "BY"
	n := len(pre) + 7 + len(post) + 1 + len(body)
	return append([]byte(fmt.Sprintf("%s%7d%s\x03", pre, n, post)), body...)
}

// varied is a source of chance that depends on what is given only.
func varied(of ...interface{}) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, of...)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func randomTime(r *rand.Rand, free bool) (string, string) {
	if !free {
		if r.Intn(3) == 0 {
			return "262115", "0616"
		}
		return fmt.Sprintf("%02d%02d%02d", 1+r.Intn(28), r.Intn(24), r.Intn(60)), fmt.Sprintf("%02d%02d", 1+r.Intn(12), r.Intn(100))
	}
	// every calendar minute, some of them impossible
	d, h, m, mo, y := 1+r.Intn(31), r.Intn(24), r.Intn(60), 1+r.Intn(12), r.Intn(100)
	switch r.Intn(6) {
	case 0:
		d = 27 + r.Intn(6)
	case 1:
		mo, d = 2, 27+r.Intn(4)
	case 2:
		if r.Intn(4) == 0 {
			switch r.Intn(5) {
			case 0:
				d = 0
			case 1:
				h = 24 + r.Intn(3)
			case 2:
				m = 60 + r.Intn(3)
			case 3:
				mo = 0
			case 4:
				mo = 13 + r.Intn(5)
			}
		}
	case 3:
		h, m = []int{0, 23}[r.Intn(2)], []int{0, 59}[r.Intn(2)]
	}
	return fmt.Sprintf("%02d%02d%02d", d, h, m), fmt.Sprintf("%02d%02d", mo, y)
}

func genRow(r *rand.Rand, w int, levels int, raw, long bool) []byte {
	no := byte(16 + r.Intn(200))
	if r.Intn(8) == 0 {
		if no = byte(r.Intn(256)); no == 10 {
			no = 0
		}
	}
	row := []byte{no}
	if raw {
		n := r.Intn(8)
		for i := 0; i < n; i++ {
			b := byte(r.Intn(256))
			if r.Intn(3) == 0 {
				b = []byte{0, 1, 3, 9, 13, 15, 16, 17, 26, 32, 48, 127, 128, 240, 254, 255}[r.Intn(16)]
			}
			if b == 10 {
				b = 255
			}
			row = append(row, b)
		}
		return row
	}
	if r.Intn(10) == 0 {
		if r.Intn(2) == 0 {
			return nil
		}
		return row
	}
	at := 0
	off := r.Intn(w + 1)
	if r.Intn(3) == 0 {
		off = r.Intn(4)
		if off > w {
			off = w
		}
	}
	at = off
	for off >= 239 {
		row = append(row, 255)
		off -= 239
	}
	row = append(row, byte(16+off))
	if long {
		// runs of no cells, longer than any buffer
		for n := 4000 + r.Intn(5000); n > 0; n-- {
			row = append(row, byte(r.Intn(10)))
		}
	}
	for at < w && r.Intn(12) > 0 {
		n := r.Intn(16)
		if r.Intn(3) > 0 {
			n = 1 + r.Intn(4)
		}
		if n > w-at {
			n = w - at
		}
		v := r.Intn(16)
		if r.Intn(2) == 0 {
			v = r.Intn(levels + 2)
			if v > 15 {
				v = 15
			}
		}
		if n == 0 && v == 10 {
			v = 9
		}
		row = append(row, byte(n<<4|v))
		at += n
	}
	return row
}

func genFrame(r *rand.Rand, t *Tables, o Opt) Frame {
	f := Frame{}
	f.enc = pick(r, o.encs)
	label := ""
	isLocal := false
	if o.labels != nil {
		label = pick(r, o.labels)
		isLocal = t.local[label]
	} else {
		switch {
		case o.local && r.Intn(3) == 0:
			label = pick(r, t.Local)
		case r.Intn(12) == 0:
			label = pick(r, t.unknown)
		default:
			label = pick(r, t.Known)
		}
		isLocal = t.local[label]
	}
	f.label = label
	// a local label may also come with explicit dimensions
	explicit := !(isLocal && o.local)

	w, h := 1+r.Intn(o.maxW), 1+r.Intn(o.maxH)
	if o.wide > 0 && r.Intn(o.wide) == 0 {
		w, h = 1+r.Intn(5000), 1+r.Intn(3)
		switch r.Intn(12) {
		case 0:
			w, h = 9999-r.Intn(3), 1
		case 1:
			w, h = 1+r.Intn(2), 1000+r.Intn(1500)
		}
	}
	if !explicit {
		w, h = 200, 224
		if label == "PU" || label == "PZ" {
			h = 2400
		}
	}
	damage := ""
	if o.damage == "random" {
		damage = pick(r, []string{"cut", "cut", "cuthdr", "noetx", "nobody", "by+", "by-", "by0", "byhdr", "nob", "bynan", "nodim", "dimtxt", "dimhalf", "dim0", "dimneg", "dimbig",
			"lvlen", "lvcnt", "lvtxt", "lvshort", "vvtxt", "inttxt", "vstxt", "etxt", "date", "date2", "offset", "overrun", "nolf", "tiny", "none", "trailkey", "both", "twice"})
	}
	if strings.HasPrefix(damage, "lv") || damage == "offset" || damage == "overrun" || damage == "nolf" {
		f.enc = "run"
	}
	if (strings.HasPrefix(damage, "dim") || damage == "nodim" || damage == "both") && !explicit {
		damage = "cut"
	}
	if strings.HasPrefix(damage, "by") && f.enc == "run" && damage != "bynan" {
		f.enc = "one"
	}
	f.w, f.h, f.damage = w, h, damage

	// body
	levels := 0
	lvcount := []int{0, 1, 2, 6, 6, 6, 12, 14, 15, 16, 19}[r.Intn(11)]
	var body []byte
	var levelText string
	switch f.enc {
	case "one":
		body = make([]byte, w*h)
		for i := range body {
			body[i] = byte(r.Intn(256))
			if r.Intn(6) == 0 {
				body[i] = []byte{0, 249, 250, 251, 255, 3, 10}[r.Intn(7)]
			}
		}
	case "two":
		body = make([]byte, w*h*2)
		for i := range body {
			body[i] = byte(r.Intn(256))
			if i%2 == 1 && r.Intn(2) == 0 {
				body[i] &= 0x4F
			}
			if r.Intn(12) == 0 {
				body[i] = []byte{0, 32, 64, 128, 255, 3, 10, 16}[r.Intn(8)]
			}
		}
	case "run":
		levels = lvcount
		levelText = fmt.Sprintf("%2d", levels)
		if r.Intn(4) == 0 {
			levelText = pick(r, []string{fmt.Sprintf("%02d", levels), fmt.Sprintf("%-2d", levels)})
		}
		few := r.Intn(6) // tables with hardly different or ordered levels
		few1, few2 := r.Intn(400)-200, r.Intn(10000)
		for i := 0; i < levels; i++ {
			tenth := r.Intn(1000)
			if r.Intn(4) == 0 {
				tenth = -r.Intn(1000)
			} else if r.Intn(4) == 0 {
				tenth = r.Intn(10000)
			}
			switch few {
			case 0:
				tenth = []int{few1, few2, 0}[r.Intn(1+r.Intn(3))]
			case 1:
				tenth = few1 + 10*i
			}
			s := fmt.Sprintf("%d.%d", abs(tenth)/10, abs(tenth)%10)
			if few > 1 && r.Intn(4) == 0 { // other numbers of decimals
				s = []string{fmt.Sprintf("%d.%02d", r.Intn(10), r.Intn(100)), fmt.Sprintf(".%0*d", 1+r.Intn(3), r.Intn(10)), fmt.Sprintf("%d.%02d", r.Intn(100), r.Intn(100)), fmt.Sprintf("%d.%03d", r.Intn(10), r.Intn(1000))}[r.Intn(4)]
			}
			if tenth < 0 && len(s) < 5 {
				s = "-" + s
			}
			if tenth >= 0 && len(s) < 5 && r.Intn(8) == 0 {
				s = "+" + s
			}
			if r.Intn(12) == 0 { // blanks on the other side
				levelText += fmt.Sprintf("%-5s", s)
			} else {
				levelText += fmt.Sprintf("%5s", s)
			}
		}
		badRow := -1
		if damage == "offset" || damage == "overrun" {
			badRow = r.Intn(h)
		}
		for y := 0; y < h; y++ {
			row := genRow(r, w, levels, o.rawRows && r.Intn(3) == 0, o.wide > 0 && r.Intn(120) == 0)
			if y == badRow && damage == "offset" {
				row = []byte{20, byte(r.Intn(16))}
				if row[1] == 10 {
					row[1] = 11
				}
				if r.Intn(3) == 0 {
					row = []byte{20, 255, row[1]}
				}
			}
			if y == badRow && damage == "overrun" {
				row = genRow(r, w, levels, false, false)
				for len(row) < 2 {
					row = genRow(r, w, levels, false, false)
				}
				for i := 0; i <= w/15+1; i++ {
					row = append(row, byte(0xF1))
				}
			}
			body = append(body, row...)
			body = append(body, 10)
		}
	}

	// header
	day, month := randomTime(r, o.times)
	prec := r.Intn(9) - 4
	havePrec := !o.plainHdr && f.enc != "run" && r.Intn(5) > 0
	if !havePrec {
		prec = 0
	}
	f.scale = Scale{prec, t.dbz[label]}
	if f.enc == "run" {
		f.scale = Scale{-4, false}
	}

	var fs []field
	if f.enc == "run" {
		txt := levelText
		switch damage {
		case "lvlen":
			if r.Intn(2) == 0 || len(txt) < 3 {
				txt += pick(r, []string{" ", "  1.0", "0"})
			} else {
				txt = txt[:len(txt)-1-r.Intn(len(txt)-2)]
			}
		case "lvcnt":
			txt = pick(r, []string{"  ", "xx", "-1", " -"}) + txt[2:]
		case "lvtxt":
			txt = " 2  1.0" + pick(r, []string{"     ", "abcde", "x1234"})
			levels = 2
		case "lvshort":
			txt = pick(r, []string{"6", " ", "1"})
		}
		fs = append(fs, field{"LV", txt})
	}
	if explicit && damage != "nodim" {
		gp := func(h, w int) field { return field{"GP", fmt.Sprintf("%4dx%4d", h, w)} }
		d := gp(h, w)
		if r.Intn(12) == 0 {
			d.text += strings.Repeat(" ", 1+r.Intn(3))
		}
		if o.pads {
			d = field{"GP", pad(r, true, h, 4) + "x" + pad(r, true, w, 4)}
		}
		if h < 1000 && w < 1000 && r.Intn(4) == 0 {
			d = field{"BG", fmt.Sprintf("%3d%3d", h, w)}
			if r.Intn(2) == 0 {
				d = field{"BG", fmt.Sprintf("%03d%03d", h, w)}
			}
		}
		switch damage {
		case "dimtxt":
			d = field{pick(r, []string{"GP", "BG"}), pick(r, []string{" ", "axb", "<x>", "  x  "})}
		case "dimhalf":
			d = field{"GP", pick(r, []string{" 450", " 450x", "x 450", " 450x   ", "  2 "})}
		case "dim0":
			d = gp(h, 0)
			if r.Intn(2) == 0 {
				d = gp(0, w)
			}
		case "dimneg":
			d = gp(-h, -w)
			if r.Intn(2) == 0 {
				d = gp(h, -w)
			}
			if r.Intn(4) == 0 {
				d = gp(-h, w)
			}
		case "dimbig":
			big := []int{10000, 12345, 99999, 1000000, 400000000}[r.Intn(5)]
			d = gp(big, w)
			if r.Intn(2) == 0 {
				d = gp(h, big)
			}
			if r.Intn(3) == 0 {
				d = gp(big, big)
			}
		}
		fs = append(fs, d)
		if damage == "both" {
			fs = append(fs, field{"BG", "002003"})
		}
	}
	if havePrec {
		s := fmt.Sprintf("%+03d", prec)
		switch {
		case r.Intn(8) == 0 && prec >= 0: // without sign
			s = pick(r, []string{fmt.Sprintf("%02d", prec), fmt.Sprintf("%3d", prec), fmt.Sprint(prec)})
		case r.Intn(12) == 0:
			s = pick(r, []string{fmt.Sprintf("%3d", prec), fmt.Sprintf("%+04d", prec), fmt.Sprintf("%+d", prec)})
		case r.Intn(12) == 0:
			s = pick(r, []string{fmt.Sprintf("%+*d", 4+r.Intn(5), prec), fmt.Sprintf("%+0*d", 4+r.Intn(5), prec)})
		}
		if r.Intn(12) == 0 {
			s += pick(r, []string{" ", "  ", "     "})
		}
		if damage == "etxt" {
			s = pick(r, []string{" ", "-", "x"})
		}
		fs = append(fs, field{"E", s})
	} else if damage == "etxt" {
		fs = append(fs, field{"E", " "})
	}
	if !o.plainHdr {
		if r.Intn(2) == 0 || damage == "vstxt" {
			s := pad(r, o.pads, r.Intn(10), 2)
			if r.Intn(8) == 0 {
				s = fmt.Sprintf("%+d", r.Intn(16)-8)
			}
			if r.Intn(12) == 0 {
				s = strings.Repeat(" ", r.Intn(5)) + s + strings.Repeat(" ", r.Intn(4))
			}
			if damage == "vstxt" {
				s = pick(r, []string{" ", "x", "-"})
			}
			fs = append(fs, field{"VS", s})
		}
		if r.Intn(2) == 0 || damage == "inttxt" || o.times {
			n := []int{5, 60, 1440, 10080, r.Intn(100), r.Intn(10000), 32700 + r.Intn(200), r.Intn(10000000)}[r.Intn(8)]
			s := pad(r, o.pads, n, 4)
			if r.Intn(12) == 0 {
				s = fmt.Sprintf("%4d", -r.Intn(1500))
			} else if r.Intn(12) == 0 {
				s = fmt.Sprintf("%+04d", n)
			}
			if r.Intn(12) == 0 {
				s += strings.Repeat(" ", 1+r.Intn(4))
			}
			if damage == "inttxt" {
				s = pick(r, []string{" ", "x", "-"})
			}
			fs = append(fs, field{"INT", s})
		}
		if r.Intn(2) == 0 || damage == "vvtxt" {
			n := []int{0, 5, 60, 120, r.Intn(200), r.Intn(3000), r.Intn(100000), 990 + r.Intn(20), 32700 + r.Intn(200), r.Intn(10000000)}[r.Intn(10)]
			s := " " + fmt.Sprintf("%03d", n)
			if o.pads {
				s = pad(r, true, n, 4)
			}
			if r.Intn(12) == 0 {
				s = fmt.Sprintf("%4d", -r.Intn(100))
			} else if r.Intn(12) == 0 {
				s = fmt.Sprintf("%+04d", n)
			}
			if r.Intn(12) == 0 {
				s += strings.Repeat(" ", 1+r.Intn(4))
			}
			if damage == "vvtxt" {
				s = pick(r, []string{" ", "x", "-"})
			}
			fs = append(fs, field{"VV", s})
		}
		if r.Intn(2) == 0 {
			fs = append(fs, field{"MS", stationList(r)})
		}
		if r.Intn(2) == 0 {
			fs = append(fs, field{"PR", " "})
		}
		if o.unknown {
			for i := r.Intn(4); i > 0; i-- {
				fs = append(fs, unknownField(r))
			}
			if r.Intn(30) == 0 { // very many
				for i := 30 + r.Intn(300); i > 0; i-- {
					fs = append(fs, field{fmt.Sprintf("X%c%c", 'A'+r.Intn(26), 'A'+r.Intn(26)), fmt.Sprint(r.Intn(10))})
				}
			}
		} else if r.Intn(2) == 0 {
			fs = append(fs, field{"SW", software(r)}, field{"MF", means(r)})
		}
	}
	if damage == "twice" {
		fs = append(fs, fs[r.Intn(len(fs))])
	}
	if o.permute {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	if damage == "trailkey" || (o.unknown && r.Intn(4) == 0) {
		key := pick(r, []string{"VV", "INT", "VS", "MF", "GP", "BG", "LV", "BY", "E"})
		used := key == "BY"
		for _, x := range fs {
			used = used || x.key == key
		}
		if used || damage != "trailkey" {
			key = "MF"
		}
		fs = append(fs, field{key, ""})
	}
	byPos := 0
	if o.permute {
		byPos = r.Intn(len(fs) + 1)
		// a field without text can only be the last one
		if byPos == len(fs) && len(fs) > 0 && fs[len(fs)-1].text == "" {
			byPos--
		}
	}
	byWidth := 7
	if o.pads {
		byWidth = 7 + 3*r.Intn(2)
	}
	radar := station(r)
	render := func(by string) string {
		s := label + day + radar + month
		for i, x := range fs {
			if i == byPos {
				s += by
			}
			s += x.key + x.text
		}
		if byPos == len(fs) {
			s += by
		}
		return s + "\x03"
	}
	hl := len(render("BY" + strings.Repeat(" ", byWidth)))
	by := hl + len(body)
	switch damage {
	case "by+":
		by += 1 + r.Intn(3)
	case "by-":
		by -= 1 + r.Intn(3)
	case "by0":
		by = 0
	case "byhdr":
		by -= hl
	}
	byText := fmt.Sprintf("BY%*d", byWidth, by)
	if o.pads && r.Intn(2) == 0 {
		byText = fmt.Sprintf("BY%0*d", byWidth, by)
	}
	if damage == "nob" {
		byText = ""
	}
	if damage == "bynan" {
		byText = "BY" + strings.Repeat(pick(r, []string{" ", "x", "-"}), byWidth)
	}
	hd := render(byText)
	switch damage {
	case "date":
		i := []int{2, 3, 4, 5, 6, 7, 13, 14, 15, 16}[r.Intn(10)]
		hd = hd[:i] + pick(r, []string{" ", "-", "x"}) + hd[i+1:]
	case "date2":
		i := []int{2, 4, 6, 13}[r.Intn(4)]
		hd = hd[:i] + pick(r, []string{"99", "70", "00"}) + hd[i+2:]
	case "noetx":
		hd = hd[:len(hd)-1]
	case "cuthdr":
		hd = hd[:r.Intn(len(hd))]
		body = nil
	case "tiny":
		hd = hd[:r.Intn(21)] + "\x03"
	case "nobody":
		body = nil
	case "cut":
		body = body[:r.Intn(len(body))]
	case "nolf":
		body = body[:len(body)-1]
	}
	f.hdrLen = len(hd)
	f.body = body
	f.file = append([]byte(hd), body...)
	if o.trailing && r.Intn(2) == 0 {
		n := 1 + r.Intn(20)
		for i := 0; i < n; i++ {
			f.file = append(f.file, byte(r.Intn(256)))
		}
	}
	return f
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

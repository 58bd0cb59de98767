package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// Sources of the standard library. A parser that looks behind the interface
// of its source (its length, its buffer, its position) would be told by them.

const kindsOfSources = 17

// standardSource delivers the data by a source of the standard library. The
// returned function releases it.
func standardSource(kind int, rng *rand.Rand, data []byte) (rd io.Reader, name string, release func()) {
	release = func() {}
	junk := make([]byte, 1+rng.Intn(300))
	rng.Read(junk)
	behind := append(append([]byte{}, junk...), data...)
	pieces := func() (ps []io.Reader) {
		for at := 0; at < len(data); {
			n := 1 + rng.Intn(len(data)-at)
			if rng.Intn(2) == 0 && n > 30 {
				n = 1 + rng.Intn(30)
			}
			ps = append(ps, bytes.NewReader(data[at:at+n]))
			at += n
		}
		return
	}
	switch kind {
	case 0:
		return bytes.NewReader(data), "bytes.Reader", release
	case 1:
		return bytes.NewBuffer(append([]byte{}, data...)), "bytes.Buffer", release
	case 2:
		return strings.NewReader(string(data)), "strings.Reader", release
	case 3:
		return bufio.NewReaderSize(bytes.NewReader(data), 16), "bufio.Reader of 16 bytes", release
	case 4:
		n := []int{64, 4096, 4097, 1 << 16, 1 << 20}[rng.Intn(5)]
		b := bufio.NewReaderSize(bytes.NewReader(data), n)
		b.Peek(1 + rng.Intn(n))
		return b, fmt.Sprintf("bufio.Reader of %d bytes, filled", n), release
	case 5: // a file, read from the middle
		f, err := ioutil.TempFile("", "radverif-source")
		die(err)
		die(os.Remove(f.Name()))
		_, err = f.Write(behind)
		die(err)
		_, err = f.Seek(int64(len(junk)), io.SeekStart)
		die(err)
		return f, "os.File", func() { f.Close() }
	case 6:
		return io.NewSectionReader(bytes.NewReader(append(append([]byte{}, behind...), junk...)), int64(len(junk)), int64(len(data))), "io.SectionReader", release
	case 7:
		return io.LimitReader(io.MultiReader(bytes.NewReader(data), bytes.NewReader(junk)), int64(len(data))), "io.LimitedReader", release
	case 8:
		return io.MultiReader(pieces()...), "io.MultiReader", release
	case 9:
		r, w := io.Pipe()
		ps := pieces()
		go func() {
			for _, p := range ps {
				if _, err := io.Copy(w, p); err != nil {
					return
				}
			}
			w.Close()
		}()
		return r, "io.Pipe", func() { r.Close() }
	case 10:
		r, w, err := os.Pipe()
		die(err)
		go func() {
			w.Write(data)
			w.Close()
		}()
		return r, "os.Pipe", func() { r.Close() }
	case 11:
		return iotest.DataErrReader(bytes.NewReader(data)), "iotest.DataErrReader", release
	case 12:
		return iotest.HalfReader(bytes.NewReader(data)), "iotest.HalfReader", release
	case 13:
		b := bytes.NewReader(behind)
		b.Seek(int64(len(junk)), io.SeekStart)
		return b, "bytes.Reader from the middle", release
	case 14:
		b := bytes.NewBuffer(behind)
		b.Next(len(junk))
		return b, "bytes.Buffer from the middle", release
	case 15:
		return io.TeeReader(bytes.NewReader(data), ioutil.Discard), "io.TeeReader", release
	}
	return iotest.OneByteReader(bytes.NewReader(data)), "iotest.OneByteReader", release
}

// endless delivers zeros. After so many that no buffer can have asked for them
// it blocks, as only one who waits for its end comes that far.
type endless struct {
	left    int
	blocked chan struct{}
}

func (z *endless) Read(p []byte) (int, error) {
	if z.left <= 0 {
		<-z.blocked
		return 0, io.EOF
	}
	if len(p) > z.left {
		p = p[:z.left]
	}
	for i := range p {
		p[i] = 0
	}
	z.left -= len(p)
	return len(p), nil
}

// openSource delivers the data and never ends before it is released.
func openSource(kind int, data []byte) (rd io.Reader, name string, release func()) {
	end := make(chan struct{})
	if kind%3 == 0 {
		return io.MultiReader(bytes.NewReader(data), &endless{64 << 20, end}), "endless", func() { close(end) }
	}
	if kind%3 == 1 {
		r, w := io.Pipe()
		go func() {
			w.Write(data)
			<-end
			w.Close()
		}()
		return r, "open io.Pipe", func() { close(end); r.Close() }
	}
	r, w, err := os.Pipe()
	die(err)
	go func() {
		w.Write(data)
		<-end
		w.Close()
	}()
	return r, "open os.Pipe", func() { close(end); r.Close() }
}

// sources records parses of random frames delivered by every kind of source.
// What the source did is not seen: the specification says that it does not
// matter, so all bytes are logged as one delivery.
func sources(t *Tables, seed int64, n int, out string) {
	tr := newTrace(out)
	counts := map[string]int{}
	var mu sync.Mutex
	lines := make([][]*traceLine, n)
	each(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*433494437 + int64(i)))
		f := genFrame(rng, t, family([]string{"chunk", "mixed", "chunk", "reject"}[rng.Intn(4)], t))
		file := f.file
		switch rng.Intn(4) {
		case 0: // much behind the frame
			file = append(append([]byte{}, file...), make([]byte, 100+rng.Intn(10000))...)
		case 1: // another frame
			file = append(append([]byte{}, file...), genFrame(rng, t, family("mixed", t)).file...)
		case 2: // the same frame again, with other cells
			again := append([]byte{}, f.file...)
			for k := len(again) - 1; k > 0 && again[k] != 3; k-- {
				if again[k] != 10 && f.enc != "run" {
					again[k] ^= byte(1 + rng.Intn(7))
				}
			}
			file = append(append([]byte{}, file...), again...)
		}
		for j := 0; j < 6; j++ {
			kind := (6*i + j) % kindsOfSources
			rd, name, release := standardSource(kind, rng, file)
			r := run(rd, f.scale)
			release()
			mu.Lock()
			counts[name+" "+r.Outcome]++
			mu.Unlock()
			lines[i] = append(lines[i], &traceLine{fmt.Sprintf("source-%d-%d-%s", seed, i, name), bytesToInts(file), asEv([]Event{{"read", len(file)}, {"end", 0}}, r), f.scale})
		}
		// a complete frame needs no end of the source
		if r := run(bytes.NewReader(f.file), f.scale); r.Outcome == "ok" || r.Outcome == "unit" {
			rd, name, release := openSource(i, f.file)
			r := run(rd, f.scale)
			release()
			mu.Lock()
			counts[name+" "+r.Outcome]++
			mu.Unlock()
			if r.Outcome == "hang" {
				mismatch("a source is waited for after a complete frame", map[string]interface{}{"bytes": bytesToInts(f.file), "source": name})
			}
			lines[i] = append(lines[i], &traceLine{fmt.Sprintf("source-%d-%d-%s", seed, i, name), bytesToInts(f.file), asEv([]Event{{"read", len(f.file)}}, r), f.scale})
		}
	})
	for _, ls := range lines {
		for _, l := range ls {
			tr.put(l)
		}
	}
	tr.close()
	stat(map[string]interface{}{"recorded": tr.n, "outcomes": counts})
}

// pausing is a source that takes its time, and notices when it is read from.
type pausing struct {
	data  []byte
	each  int // bytes per read
	at    int // the read that takes long
	long  time.Duration
	reads int32
}

func (p *pausing) Read(b []byte) (int, error) {
	if n := atomic.AddInt32(&p.reads, 1); int(n) == p.at {
		time.Sleep(p.long)
	} else {
		time.Sleep(200 * time.Microsecond)
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	if len(b) > p.each {
		b = b[:p.each]
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	return n, nil
}

// pauses parses frames and archives whose sources take long, somewhere, and looks
// whether they are read from after the result was returned.
func pauses(t *Tables, seed int64, n int, long time.Duration) {
	type pending struct {
		src   *pausing
		reads int32
		what  string
	}
	var mu sync.Mutex
	var returned []pending
	outs := map[string]int{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed*22801763489 + int64(i)))
			f := genFrame(rng, t, family([]string{"chunk", "mixed", "run", "reject"}[i%4], t))
			want, werr, bad := parseGuarded(bytes.NewReader(f.file), patience())
			if bad != "" {
				return
			}
			file := append(append([]byte{}, f.file...), make([]byte, 20000)...)
			if classify(werr) == "err" {
				file = f.file // nothing behind it that completes it
			}
			if i%5 == 4 {
				if classify(werr) != "ok" {
					return
				}
				file = append(compress(join(tarChunks([]member{plainMember(rng, 0, f.file), plainMember(rng, 1, f.file)})), 9))
			}
			src := &pausing{data: file, each: 1 + rng.Intn(1+len(f.file)), long: long}
			src.at = 1 + rng.Intn(1+len(f.file)/src.each)
			if i%3 == 0 {
				src.at = 1
			}
			info := map[string]interface{}{"bytes": bytesToInts(file), "pause": long.String(), "read": src.at, "bytes_per_read": src.each, "archive": i%5 == 4}
			var cs []*radolan.Composite
			var err error
			if i%5 == 4 {
				a := readArchive(src)
				cs, err, bad = a.cs, a.err, a.bad
			} else {
				var c *radolan.Composite
				c, err, bad = parseGuarded(src, patience()+long)
				cs = []*radolan.Composite{c}
			}
			mu.Lock()
			defer mu.Unlock()
			returned = append(returned, pending{src, atomic.LoadInt32(&src.reads), f.label})
			outs[classify(err)]++
			if bad != "" || classify(err) != classify(werr) {
				info["got"], info["want"] = bad+fmt.Sprint(err), fmt.Sprint(werr)
				mismatch("outcome with a source that takes its time", info)
				return
			}
			for _, c := range cs {
				if classify(err) != "err" && same(c, want) != "" {
					info["got"] = same(c, want)
					mismatch("composite of a source that takes its time", info)
				}
			}
		}(i)
	}
	wg.Wait()
	time.Sleep(300 * time.Millisecond)
	for _, p := range returned {
		if n := atomic.LoadInt32(&p.src.reads); n != p.reads {
			mismatch("a source is read from after the parse returned", map[string]interface{}{"label": p.what, "reads": p.reads, "later": n})
			break
		}
	}
	stat(map[string]interface{}{"replayed": len(returned), "outcomes": outs, "pause": long.String()})
}

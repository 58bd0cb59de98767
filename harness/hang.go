package main

import (
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// A call that takes this long never returns.
const hangLimit = 60 * time.Second

var (
	hangs            int32 // calls given up
	entered, returns int64 // calls of the library that are watched together
	watching         sync.Once
	openTraces       sync.Map
)

// patience is how long to wait for a call: once some never returned, the
// processors are busy with them and more need not be waited for that long.
func patience() time.Duration {
	if atomic.LoadInt32(&hangs) > 0 {
		return hangLimit / 4
	}
	return hangLimit
}

// hung counts a call that is given up. After some of them nothing more is tried.
func hung() {
	if atomic.AddInt32(&hangs, 1) == 4 {
		time.AfterFunc(2*time.Second, giveUp)
	}
}

// giveUp ends the program with what was found so far.
func giveUp() {
	recording := false
	openTraces.Range(func(k, _ interface{}) bool {
		t := k.(*traceOut)
		t.mu.Lock() // for ever
		t.w.Flush()
		stat(map[string]interface{}{"recorded": t.n, "given_up": true})
		recording = true
		return true
	})
	mismatchMux.Lock()
	switch {
	case failures > 0:
		os.Exit(1)
	case recording:
		os.Exit(0) // the validation of what is recorded decides
	}
	os.Exit(4)
}

// busy announces a call of the library that is not waited for otherwise;
// the result is called when it returned.
func busy() func() {
	watching.Do(func() { go watch() })
	atomic.AddInt64(&entered, 1)
	return returned
}

func returned() { atomic.AddInt64(&returns, 1) }

func watch() {
	last, since := int64(-1), time.Now()
	for range time.Tick(time.Second) {
		n := atomic.LoadInt64(&returns)
		if n != last || n == atomic.LoadInt64(&entered) {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < hangLimit {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var stacks []string
		for _, s := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(s, "since/radolan") && len(stacks) < 4 {
				stacks = append(stacks, s)
			}
		}
		mismatch("a call of the library never returns", map[string]interface{}{"stacks": stacks})
		giveUp()
	}
}

// dummy makes a dummy composite.
func dummy(label string, version, dx, dy int) *radolan.Composite {
	defer busy()()
	return radolan.NewDummy(label, version, dx, dy)
}

// place projects coordinates. Where races are looked for the method is called
// directly, as counting orders the calls.
func place(c *radolan.Composite, lat, lon float64) (x, y float64) {
	defer busy()()
	return c.Project(lat, lon)
}

package main

import (
	"context"
	"errors"
	"io"
	"math/rand"
	"os"
	"syscall"
)

var errBroken = errors.New("source broken")

// Event is one answered call of the reader.
type Event struct {
	E string `json:"e"`
	N int    `json:"n"`
}

// failure is the failure of a source. Some failures call themselves temporary;
// they are failures all the same.
type failure struct {
	text      string
	temporary bool
	cause     error
}

func (f *failure) Error() string   { return f.text }
func (f *failure) Temporary() bool { return f.temporary }
func (f *failure) Timeout() bool   { return f.temporary }
func (f *failure) Unwrap() error   { return f.cause }

var failing = []error{errBroken, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
	&failure{"timeout", true, nil}, &failure{"interrupted", true, syscall.EINTR}, syscall.EAGAIN, syscall.EINTR,
	os.ErrDeadlineExceeded, &failure{"connection reset", false, syscall.ECONNRESET}, context.Canceled}

// callReader answers the scripted calls: n > 0 delivers n bytes, 0 ends the
// input, -1 breaks. After the script it breaks. A source asked again after it has
// ended or failed delivers the rest of the file (Late).
type callReader struct {
	data  []byte
	calls []int
	pos   int
	over  bool
}

// late is what a source delivers that is asked again behind its end or failure.
func (r *callReader) late(p []byte) (int, error) {
	n := copy(p, r.data[r.pos:])
	r.pos += n
	if n == 0 && len(p) > 0 {
		return 0, errBroken
	}
	return n, nil
}

func (r *callReader) Read(p []byte) (int, error) {
	if r.over {
		return r.late(p)
	}
	for len(r.calls) > 0 {
		n := r.calls[0]
		if n == 0 {
			r.over = true
			return 0, io.EOF
		}
		if n < 0 {
			r.over = true
			return 0, failing[(r.pos+len(r.data))%len(failing)]
		}
		if n > len(p) {
			copy(p, r.data[r.pos:r.pos+len(p)])
			r.pos += len(p)
			r.calls[0] -= len(p)
			return len(p), nil
		}
		copy(p, r.data[r.pos:r.pos+n])
		r.pos += n
		r.calls = r.calls[1:]
		return n, nil
	}
	r.over = true
	return 0, errBroken
}

// source delivers a file in a randomly chosen manner and records its calls.
type source struct {
	rng      *rand.Rand
	data     []byte
	pos      int
	mode     int  // 0 all, 1 single bytes, 2 random, 3 bounded random
	bound    int  // for mode 3
	breakAt  int  // position at which the source fails, -1: never
	together bool // end or failure is reported with the last bytes
	zero     bool // inserts empty reads
	lastZero bool // the last read was empty
	burst    int  // empty reads to come
	brk      error
	over     bool   // it has ended or failed
	after    []byte // what it delivers if it is asked again then
	events   []Event
}

func newSource(rng *rand.Rand, data []byte) *source {
	s := &source{rng: rng, data: data, breakAt: -1, brk: errBroken}
	s.mode = rng.Intn(4)
	if s.mode == 1 && rng.Intn(3) > 0 || s.mode == 1 && len(data) > 600 {
		s.mode = 2
	}
	s.bound = 1 + rng.Intn(40)
	if len(data) > 2000 {
		s.bound *= 50
	}
	s.together = rng.Intn(3) == 0
	s.zero = rng.Intn(5) == 0
	s.brk = failing[rng.Intn(len(failing))]
	return s
}

func (s *source) stop() (int, error) {
	if s.breakAt >= 0 && !s.over {
		s.after = s.data[s.pos:]
	}
	s.over = true
	if s.breakAt >= 0 {
		s.events = append(s.events, Event{"break", 0})
		return 0, s.brk
	}
	s.events = append(s.events, Event{"end", 0})
	return 0, io.EOF
}

func (s *source) Read(p []byte) (int, error) {
	limit := len(s.data)
	if s.breakAt >= 0 && s.breakAt < limit {
		limit = s.breakAt
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.over && len(s.after) > 0 {
		n := copy(p, s.after)
		s.after = s.after[n:]
		s.events = append(s.events, Event{"late", n})
		return n, nil
	}
	if s.pos >= limit {
		return s.stop()
	}
	if s.zero && !s.lastZero && s.burst == 0 && s.rng.Intn(3) == 0 {
		s.burst = 1
		if s.rng.Intn(12) == 0 {
			s.burst += s.rng.Intn(40)
		}
	}
	if s.burst > 0 {
		s.burst--
		s.lastZero = true
		s.events = append(s.events, Event{"read", 0})
		return 0, nil
	}
	s.lastZero = false
	n := limit - s.pos
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.rng.Intn(n)
	case 3:
		if m := 1 + s.rng.Intn(s.bound); m < n {
			n = m
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	s.events = append(s.events, Event{"read", n})
	if s.pos == limit && s.together {
		_, err := s.stop()
		return n, err
	}
	return n, nil
}

package main

import (
	"errors"
	"io"
	"math/rand"
)

var errInjected = errors.New("injected stream failure")
var errCloseFail = errors.New("injected close failure")

// Fragmentation modes of a stream.
const (
	fragWhole  = iota
	fragOne    // one byte per read
	fragRandom // random short reads
	fragZero   // every other read returns 0 bytes and no error
	fragEOF    // last bytes come together with io.EOF
	fragMixed  // random short reads, empty reads, data with EOF
	numFrag
)

var fragNames = []string{"whole", "one-byte", "random-short", "empty-reads", "data+EOF", "mixed"}

// Stream is an in-memory input with configurable delivery and faults.
type Stream struct {
	data   []byte
	pos    int64
	frag   int
	rnd    *rand.Rand
	tick   int
	ops    int  // reads and seeks performed
	failAt int  // index of the op that fails, -1: none
	part   bool // the failing read first delivers some bytes
	once   bool // later operations work again
	fired  bool
	closed int
	cerr   bool
	maxPos int64 // highest byte position read
	minPos int64
	log    *[][2]int64 // ranges read, in order
	base   int64       // where the data starts in the whole input, as seen when seeking
	cap    int         // more operations than this are endless work, 0: no limit
}

func (s *Stream) op() int {
	if s.ops++; s.cap > 0 && s.ops > s.cap {
		panic("endless work: too many reads and seeks")
	}
	return s.ops - 1
}

func (s *Stream) reset(data []byte, frag int, failAt int, cerr bool) {
	s.data, s.pos, s.frag, s.tick, s.ops, s.failAt = data, 0, frag, 0, 0, failAt
	s.fired, s.closed, s.cerr, s.maxPos, s.minPos, s.base = false, 0, cerr, 0, 1<<62, 0
}

func (s *Stream) Read(p []byte) (int, error) {
	op := s.op()
	if op == s.failAt {
		s.fired = true
		if s.part && len(p) > 1 && s.pos >= 0 && s.pos < int64(len(s.data)) {
			n := copy(p[:len(p)/2], s.data[s.pos:])
			s.pos += int64(n)
			return n, errInjected
		}
		return 0, errInjected
	}
	if s.fired && !s.once {
		return 0, errInjected
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	q := p
	switch s.frag {
	case fragOne:
		q = p[:1]
	case fragRandom:
		q = p[:1+s.rnd.Intn(len(p))]
	case fragZero:
		if s.tick++; s.tick%2 == 1 {
			return 0, nil
		}
	case fragMixed:
		switch s.rnd.Intn(4) {
		case 0:
			return 0, nil
		case 1:
			q = p[:1]
		case 2:
			q = p[:1+s.rnd.Intn(len(p))]
		}
	}
	if s.pos < s.minPos {
		s.minPos = s.pos
	}
	n := 0
	if s.pos < 0 { // What lies before the data.
		for n < len(q) && s.pos+int64(n) < 0 {
			q[n] = 0xEE
			n++
		}
	} else {
		n = copy(q, s.data[s.pos:])
	}
	s.pos += int64(n)
	if s.log != nil && n > 0 {
		l := *s.log
		if k := len(l); k > 0 && l[k-1][1] == s.pos-int64(n) {
			l[k-1][1] = s.pos
		} else {
			*s.log = append(l, [2]int64{s.pos - int64(n), s.pos})
		}
	}
	if s.pos > s.maxPos {
		s.maxPos = s.pos
	}
	if (s.frag == fragEOF || s.frag == fragMixed) && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *Stream) Close() error {
	s.closed++
	if s.cerr {
		return errCloseFail
	}
	return nil
}

// SeekStream is a Stream which can also seek.
type SeekStream struct{ Stream }

func (s *SeekStream) Seek(off int64, whence int) (int64, error) {
	op := s.op()
	if op == s.failAt {
		s.fired = true
		return 0, errInjected
	}
	if s.fired && !s.once {
		return 0, errInjected
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	default:
		off -= s.base
	}
	if off < -s.base {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off + s.base, nil
}

// Where a file may lie in its input.
var bases = []int64{0, 0, 1, 8, 4096, 1<<31 - 64, 1<<32 - 100, 1 << 40, 1 << 61}

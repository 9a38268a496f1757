package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// Sink is an in-memory output which may fail once a number of bytes has been
// accepted.
type Sink struct {
	buf    []byte
	budget int  // -1: never fails
	part   bool // the failing write accepts the bytes that fit
	full   bool // the failing write accepts everything
	once   bool // later writes work again
	fired  bool
	closed int
	cerr   bool
	writes int
}

func (s *Sink) Write(p []byte) (int, error) {
	s.writes++
	if s.fired && !s.once {
		return 0, errInjected
	}
	if s.budget >= 0 && !s.fired && (len(s.buf)+len(p) > s.budget) {
		s.fired = true
		n := 0
		if s.full {
			n = len(p)
		} else if s.part {
			n = s.budget - len(s.buf)
		}
		s.buf = append(s.buf, p[:n]...)
		return n, errInjected
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *Sink) Close() error {
	s.closed++
	if s.cerr {
		return errCloseFail
	}
	return nil
}

// WCall is one writer call.
type WCall struct {
	Key   string // as in the model
	Op    string
	Arg   string   // Header
	IxN   int      // Index
	IxNS  int      // Index
	Feats []string // IndexData, Data: names of features
	Ptr   bool     // IndexData through IndexDataPtr
}

// WAns is an observed answer, in the terms of FileWriter.tla.
type WAns struct {
	C    string
	Out  []string
	Part bool
}

// WSession drives one real writer.
type WSession struct {
	hdr    []byte
	hdrs   map[string][]byte // other headers by kind
	feats  map[string][]byte // features by name
	boxes  map[string]Bx
	bad    [][]byte // malformed features
	n, ns  int
	sink   *Sink
	w      *flatgeobuf.FileWriter
	detail string
	sum    int
	nbad   int
	start  int // its value at the start of a history
	nspare int
	mut    string
	errs   []error
	plan   []string // features an index is built for, if not nil
	lastN  int      // bytes reported by the last call
	delta  int      // bytes emitted by the last call
}

func (s *WSession) open(sink *Sink) {
	s.sink = sink
	s.w = flatgeobuf.NewFileWriter(sink)
	s.detail, s.sum, s.mut, s.errs = "", 0, "", nil
}

func rawFeature(b []byte) flat.Feature {
	var f flat.Feature
	pos := uint32(0)
	if len(b) >= 8 {
		pos = rootPos(b)
	}
	f.Init(b, uint32ToU(pos))
	return f
}

func rawHeader(b []byte) *flat.Header {
	h := &flat.Header{}
	pos := uint32(0)
	if len(b) >= 8 {
		pos = rootPos(b)
	}
	h.Init(b, uint32ToU(pos))
	return h
}

func (s *WSession) feature(name string) flat.Feature {
	if name == "bad" {
		b := s.bad[s.nbad%len(s.bad)]
		s.nbad++
		f := rawFeature(b)
		if s.nbad%3 == 0 {
			// A root table without size prefix.
			g := s.feats[s.anyFeature()][4:]
			f.Init(g, uint32ToU(binary.LittleEndian.Uint32(g)))
		}
		return f
	}
	return rawFeature(s.spare(s.feats[name]))
}

// spare copies a table into a buffer which may have more room than it needs.
func (s *WSession) spare(b []byte) []byte {
	s.nspare++
	k := []int{0, 1, 0, 3, 0, 40, 0, 5000}[s.nspare%8]
	out := make([]byte, len(b)+k)
	for i := copy(out, b); i < len(out); i++ {
		out[i] = 0xEE
	}
	return out
}

func (s *WSession) anyFeature() string {
	var ks []string
	for k := range s.feats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[0]
}

// leavesFor gives an index for m features (made of the known features in
// turn).
func (s *WSession) leavesFor(m int) []Leaf {
	var ks []string
	for k := range s.feats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Leaf
	var off int64
	if m == len(s.plan) {
		ks = s.plan
	}
	for i := 0; i < m; i++ {
		k := ks[i%len(ks)]
		out = append(out, Leaf{s.boxes[k], off})
		off += int64(len(s.feats[k]))
	}
	return out
}

func refsOf(ls []Leaf) []packedrtree.Ref {
	out := make([]packedrtree.Ref, len(ls))
	for i, l := range ls {
		out[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: l.B.X0, YMin: l.B.Y0, XMax: l.B.X1, YMax: l.B.Y1}, Offset: l.Off}
	}
	return out
}

func (s *WSession) class(err error) string {
	if err == nil {
		return "ok"
	}
	s.detail = err.Error()
	if errors.Is(err, flatgeobuf.ErrClosed) {
		return "closed"
	}
	return "err"
}

// do performs a call on the real writer and translates what it emitted.
func (s *WSession) do(c WCall) (a WAns) {
	before := len(s.sink.buf)
	was := s.sink.fired
	var n int
	var err error
	var idx []byte // expected index bytes, or nil: any index of the features
	func() {
		defer func() {
			if p := recover(); p != nil {
				s.detail = fmt.Sprint("panic: ", p)
				a.C = "panic"
			}
		}()
		switch c.Op {
		case "Header":
			h := s.hdr
			if c.Arg != "good" {
				h = s.hdrs[c.Arg]
			}
			cp := append([]byte(nil), h...)
			if c.Arg == "good" {
				cp = s.spare(h)
			}
			was := append([]byte(nil), cp...)
			n, err = s.w.Header(rawHeader(cp))
			if !bytes.Equal(cp, was) {
				s.mut = "Header changed its argument"
			}
		case "Index":
			ls := s.leavesFor(c.IxN)
			idx = EncodeIndex(ls, c.IxNS)
			t, e := packedrtree.New(refsOf(ls), uint16(c.IxNS))
			if e != nil {
				panic(e)
			}
			n, err = s.w.Index(t)
		case "IndexData":
			fs := make([]flat.Feature, len(c.Feats))
			ps := make([]*flat.Feature, len(c.Feats))
			want := make([][]byte, len(c.Feats))
			for i, name := range c.Feats {
				fs[i] = s.feature(name)
				if name == "bad" && s.nbad%5 == 0 {
					// It has no bounds.
					fs[i] = rawFeature(loops[s.nbad%len(loops)])
				}
				ps[i] = &fs[i]
				want[i] = append([]byte(nil), fs[i].Table().Bytes...)
				if name == "bad" && c.Ptr && s.nbad%4 == 1 {
					ps[i] = nil
				}
			}
			if c.Ptr {
				n, err = s.w.IndexDataPtr(ps)
			} else {
				n, err = s.w.IndexData(fs)
			}
			for i := range fs {
				if !bytes.Equal(fs[i].Table().Bytes, want[i]) {
					s.mut = "IndexData changed a feature"
				}
			}
		case "Data":
			f := s.feature(c.Feats[0])
			want := append([]byte(nil), f.Table().Bytes...)
			n, err = s.w.Data(&f)
			if !bytes.Equal(f.Table().Bytes, want) {
				s.mut = "Data changed the feature"
			}
		case "Close":
			err = s.w.Close()
		default:
			die("unknown writer op %q", c.Op)
		}
		a.C = s.class(err)
	}()
	delta := s.sink.buf[before:]
	s.sum += n
	s.lastN, s.delta = n, len(delta)
	if n != len(delta) {
		a.C = fmt.Sprintf("%s but reported %d bytes for %d", a.C, n, len(delta))
	}
	if !was && s.sink.fired && a.C == "err" && !errors.Is(err, errInjected) {
		a.C = "err without its cause"
	}
	a.Out, a.Part = s.units(c, idx, delta)
	return a
}

// units splits emitted bytes into the units of the model.
func (s *WSession) units(c WCall, idx []byte, d []byte) (out []string, part bool) {
	type exp struct {
		name string
		b    []byte
	}
	var want []exp
	switch c.Op {
	case "Header":
		want = []exp{{"M", magicBytes}, {"H", s.hdr}}
	case "Index":
		want = []exp{{"I", idx}}
	case "IndexData":
		want = []exp{{"I", nil}}
		for _, f := range c.Feats {
			want = append(want, exp{f, s.feats[f]})
		}
	case "Data":
		want = []exp{{c.Feats[0], s.feats[c.Feats[0]]}}
	}
	for _, w := range want {
		if len(d) == 0 {
			return out, false
		}
		if w.name == "I" && w.b == nil {
			if len(c.Feats) == 0 || s.ns < 2 {
				return append(out, "?"), false // There can be no index.
			}
			size := indexSize(len(c.Feats), s.ns)
			if len(d) < size {
				return out, true
			}
			if p := s.checkLibIndex(d[:size], c.Feats); p != "" {
				s.detail = p
				return append(out, "wrong index: "+p), false
			}
			out = append(out, "I")
			d = d[size:]
			continue
		}
		if len(d) < len(w.b) {
			if bytes.HasPrefix(w.b, d) {
				return out, true
			}
			return append(out, "?"), false
		}
		if !bytes.Equal(w.b, d[:len(w.b)]) {
			return append(out, "?"), false
		}
		out = append(out, w.name)
		d = d[len(w.b):]
	}
	if len(d) > 0 {
		out = append(out, "?")
	}
	return out, false
}

func indexSize(n, ns int) int {
	total := n
	for k := n; ; {
		k = (k + ns - 1) / ns
		total += k
		if k == 1 {
			return total * 40
		}
	}
}

// checkLibIndex checks an index built by the library for the named features.
func (s *WSession) checkLibIndex(b []byte, names []string) string {
	n := len(names)
	var want []Leaf
	var off int64
	for _, k := range names {
		want = append(want, Leaf{s.boxes[k], off})
		off += int64(len(s.feats[k]))
	}
	got := decodeLeaves(b, n)
	if !bytes.Equal(EncodeIndex(got, s.ns), b) {
		return "internal nodes do not fit the leaves"
	}
	by := func(ls []Leaf) []Leaf {
		o := append([]Leaf(nil), ls...)
		sort.Slice(o, func(i, j int) bool { return o[i].Off < o[j].Off })
		return o
	}
	g := by(got)
	for i, w := range by(want) {
		if g[i] != w {
			return fmt.Sprintf("leaf for offset %d is %+v, want %+v", w.Off, g[i], w)
		}
	}
	return ""
}

// decodeLeaves reads the last n nodes of an index.
func decodeLeaves(b []byte, n int) []Leaf {
	out := make([]Leaf, n)
	b = b[len(b)-40*n:]
	f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
	for i := range out {
		o := 40 * i
		out[i] = Leaf{Bx{f(o), f(o + 8), f(o + 16), f(o + 24)}, int64(binary.LittleEndian.Uint64(b[o+32:]))}
	}
	return out
}

var _ io.Writer = &Sink{}

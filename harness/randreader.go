package main

// Random reader sessions on files of all sizes, recorded for FileReaderTrace.

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// IGeom is a geometry with integer coordinates, as logged.
type IGeom struct {
	XY    []int    `json:"xy"`
	Parts []*IGeom `json:"parts"`
}

// coordMap maps logged integers to coordinates, preserving order.
type coordMap struct{ a, b float64 }

func (m coordMap) f(i int) float64 { return m.a*float64(i) + m.b }

var coordMaps = []coordMap{{1, 0}, {0.1, 0}, {1e-3, 7.25}, {1e7, -3}, {-0.0 + 2.5, 1000}, {1.0 / 3, 0}}

func randGeom(r *rand.Rand, depth int, span int) *IGeom {
	g := &IGeom{XY: []int{}, Parts: []*IGeom{}}
	cx, cy := r.Intn(span)-span/2, r.Intn(span)-span/2
	n := r.Intn(4)
	w := 1 + r.Intn(6)
	if r.Intn(12) == 0 {
		w = span
	}
	for i := 0; i < n; i++ {
		g.XY = append(g.XY, cx+r.Intn(w), cy+r.Intn(w))
	}
	if depth > 0 && r.Intn(3) == 0 {
		for i := 1 + r.Intn(3); i > 0; i-- {
			g.Parts = append(g.Parts, randGeom(r, depth-1, span))
		}
	}
	return g
}

// someGeom is randGeom with, at times, parts nested deeply, or many parts or
// coordinates.
func someGeom(r *rand.Rand, depth int, span int) *IGeom {
	g := randGeom(r, depth, span)
	switch r.Intn(100) {
	case 0:
		for i := 4 + r.Intn(50); i > 0; i-- {
			g = &IGeom{XY: []int{}, Parts: []*IGeom{g}}
			if r.Intn(6) == 0 {
				g.Parts = append(g.Parts, randGeom(r, 0, span))
			}
		}
	case 1:
		for i := 200 + r.Intn(200); i > 0; i-- {
			g.Parts = append(g.Parts, &IGeom{XY: []int{r.Intn(4), r.Intn(4)}, Parts: []*IGeom{}})
		}
		g.Parts[r.Intn(len(g.Parts))].XY = []int{r.Intn(span), -r.Intn(span)}
	case 2:
		for i := 200 + r.Intn(900); i > 0; i-- {
			g.XY = append(g.XY, r.Intn(4), r.Intn(4))
		}
		k := r.Intn(len(g.XY) / 2)
		g.XY[2*k], g.XY[2*k+1] = r.Intn(span), -r.Intn(span)
	}
	return g
}

func (g *IGeom) real(m coordMap, r *rand.Rand) *Geom {
	o := &Geom{Type: byte(r.Intn(17))}
	if len(g.XY) > 0 || r.Intn(2) == 0 {
		o.XY = []float64{}
	}
	for _, v := range g.XY {
		o.XY = append(o.XY, m.f(v))
	}
	if len(g.Parts) > 0 {
		for _, p := range g.Parts {
			o.Parts = append(o.Parts, p.real(m, r))
		}
	}
	return o
}

type randFile struct {
	ns    int // node size
	f     *File
	geoms []*IGeom
	known bool
	idx   bool
	m     coordMap
}

// libIndexed lets the library's own writer produce the file.
func libIndexed(h HeaderSpec, f *File) []byte {
	var out bytes.Buffer
	w := flatgeobuf.NewFileWriter(&out)
	hdr := flat.GetSizePrefixedRootAsHeader(f.Hdr, 0)
	if _, err := w.Header(hdr); err != nil {
		return nil
	}
	fs := make([]flat.Feature, len(f.Feats))
	for i, b := range f.Feats {
		fs[i] = *flat.GetSizePrefixedRootAsFeature(b, 0)
	}
	var err error
	if len(fs)%2 == 0 {
		_, err = w.IndexData(fs)
	} else {
		ps := make([]*flat.Feature, len(fs))
		for i := range fs {
			ps[i] = &fs[i]
		}
		_, err = w.IndexDataPtr(ps)
	}
	if err != nil {
		return nil
	}
	if w.Close() != nil {
		return nil
	}
	return out.Bytes()
}

func makeRandFile(r *rand.Rand, n int, forceIdx, lib bool) *randFile {
	rf := &randFile{geoms: []*IGeom{}, m: coordMaps[r.Intn(len(coordMaps))]}
	rf.known = n > 0 && (forceIdx || r.Intn(4) > 0)
	rf.idx = rf.known && (forceIdx || r.Intn(4) > 0)
	h := HeaderSpec{Name: "r", GeomType: 0}
	if rf.known {
		h.Count = uint64(n)
	}
	if rf.idx {
		h.NodeSize = []uint16{2, 2, 3, 4, 5, 7, 16, 16, 255, 65535}[r.Intn(10)]
	} else if !rf.known && r.Intn(2) == 0 {
		h.NodeSize = 16
	}
	span := 10 + r.Intn(60)
	mega := -1 // a feature of a megabyte
	if n > 0 && n <= 64 && r.Intn(20) == 0 {
		mega = r.Intn(n)
	}
	if r.Intn(10) == 0 {
		h.Total = roundSize(r, false)
	}
	var fs []FeatSpec
	for i := 0; i < n; i++ {
		var g *IGeom
		s := FeatSpec{}
		if n <= 64 {
			g = someGeom(r, 3, span)
			if r.Intn(10) > 0 {
				s.Geom = g.real(rf.m, r)
			} else {
				g = &IGeom{XY: []int{}, Parts: []*IGeom{}}
			}
			s.Pad = []int{0, 0, 1, 5, 100, 9000}[r.Intn(6)]
			if i == mega || r.Intn(16) == 0 {
				s.Pad, s.Total = 0, roundSize(r, i == mega)
			}
		} else {
			g = &IGeom{XY: []int{i % 97, i / 97}, Parts: []*IGeom{}}
			s.Geom = g.real(rf.m, r)
		}
		// Unique content.
		s.Props = []byte{0, 0, byte(i), byte(i >> 8), byte(i >> 16), 1}
		rf.geoms = append(rf.geoms, g)
		fs = append(fs, s)
	}
	var perm []int
	switch r.Intn(3) {
	case 0:
		perm = r.Perm(n)
	case 1:
		perm = make([]int, n)
		for i := range perm {
			perm[i] = n - 1 - i
		}
	}
	rf.ns = int(h.NodeSize)
	rf.f = BuildFile(h, fs, perm)
	if rf.idx && lib {
		b := libIndexed(h, rf.f)
		if b != nil && len(b) == len(rf.f.Bytes) {
			rf.f.Bytes = b
			rf.f.Idx = b[rf.f.HdrEnd:rf.f.IdxEnd]
		} else {
			rf.f.Bytes = b
		}
	}
	return rf
}

func ranges(fs []int) [][2]int {
	out := [][2]int{}
	for _, i := range fs {
		if k := len(out); k > 0 && out[k-1][1]+1 == i {
			out[k-1][1] = i
		} else {
			out = append(out, [2]int{i, i})
		}
	}
	return out
}

func (rf *randFile) query(r *rand.Rand, prev [][4]int) [4]int {
	if len(prev) > 0 && r.Intn(4) == 0 {
		return prev[r.Intn(len(prev))]
	}
	pick := func() (int, int) {
		if len(rf.geoms) > 0 && r.Intn(3) > 0 {
			if g := rf.geoms[r.Intn(len(rf.geoms))]; len(g.XY) > 0 {
				return g.XY[0] + r.Intn(3) - 1, g.XY[1] + r.Intn(3) - 1
			}
		}
		return r.Intn(80) - 40, r.Intn(80) - 40
	}
	x, y := pick()
	switch r.Intn(7) {
	case 5:
		return [4]int{x, -100000, x, 100000}
	case 6:
		return [4]int{-100000, y, 100000, y}
	case 0:
		return [4]int{x, y, x, y}
	case 1:
		return [4]int{-100000, -100000, 100000, 100000}
	case 2:
		return [4]int{500, 500, 501, 501}
	default:
		return [4]int{x, y, x + r.Intn(20), y + r.Intn(20)}
	}
}

func runReaderRandom(prop, out, tier string, seed int64) {
	rep := newReport()
	thorough := tier == "thorough"
	shards, per := 8, 250
	if thorough {
		per = 2500
	}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(sh)))
		name := fmt.Sprintf("trace%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			n := r.Intn(24)
			switch {
			case i == 0:
				n = []int{1023, 1024, 1025, 2047, 2048, 2049, 3100, 1}[sh]
			case i%50 == 1:
				n = r.Intn(1200)
			case i%7 == 0:
				n = r.Intn(64)
			}
			rf := makeRandFile(r, n, prop == "P06" && n > 0, prop == "P06" && r.Intn(2) == 0 || r.Intn(4) == 0)
			for k := 1 + r.Intn(3); k > 0; k-- {
				recordSession(rep, tr, r, rf, prop, n)
			}
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

func recordSession(rep *Report, tr *Trace, r *rand.Rand, rf *randFile, prop string, n int) {
	data := rf.f.Bytes
	f := rf.f
	m, clean, cut := n, true, "data"
	N := n
	if prop == "P10" && r.Intn(2) == 0 || prop == "P11" && r.Intn(4) == 0 {
		c := r.Intn(len(data) + 1)
		if n > 0 && r.Intn(2) == 0 {
			j, at := r.Intn(n), f.IdxEnd
			if r.Intn(4) == 0 { // a large one
				for k := range f.FeatEnd {
					if k > 0 && f.FeatEnd[k]-f.FeatEnd[k-1] > f.FeatEnd[j]-at || k == 0 {
						j = k
					}
					if at = f.IdxEnd; j > 0 {
						at = f.FeatEnd[j-1]
					}
				}
			} else if j > 0 {
				at = f.FeatEnd[j-1]
			}
			c = f.FeatEnd[j] + r.Intn(5) - 2
			// Where programs like to cut what they read.
			step := []int{512, 1024, 4096, 8096, 8192, 1 << 16, 1 << 20}[r.Intn(7)]
			if k := (f.FeatEnd[j] - at) / step; k > 0 && r.Intn(2) == 0 {
				c = at + 4*r.Intn(2) + step*(1+r.Intn(k))
			}
		} else if r.Intn(8) == 0 {
			step := []int{512, 1024, 4096, 8192}[r.Intn(4)]
			c = 8 + 4*r.Intn(2) + step*(1+r.Intn(1+f.HdrEnd/step))
		}
		if c > len(data) {
			c = len(data)
		}
		data = data[:c]
		switch {
		case c < f.HdrEnd:
			cut, m, clean = "hdr", 0, true
		case c < f.IdxEnd:
			cut, m, clean = "idx", 0, true
		default:
			m = 0
			at := f.IdxEnd
			for _, e := range f.FeatEnd {
				if e <= c {
					m++
					at = e
				}
			}
			clean = at == c
			if clean && !rf.known {
				N = m
			}
		}
	}
	seek := r.Intn(2) == 0
	cerr := r.Intn(10) == 0
	failAt := -1
	if prop == "P10" && r.Intn(2) == 0 {
		failAt = r.Intn(30)
	}
	frag := fragWhole
	if prop == "P11" || r.Intn(5) == 0 {
		frag = r.Intn(numFrag)
	}
	big := n > 200
	sk := &SeekStream{}
	sk.Stream.reset(data, frag, failAt, cerr)
	sk.rnd = rand.New(rand.NewSource(r.Int63()))
	sk.part, sk.once = r.Intn(2) == 0, r.Intn(2) == 0
	sk.base = bases[r.Intn(len(bases))]
	s := &Session{keep: true}
	if seek {
		s.open(f, &sk.Stream, sk)
	} else {
		s.open(f, &sk.Stream, &sk.Stream)
	}
	tr.emit(M{"e": "begin", "n": N, "known": rf.known, "idx": rf.idx, "seek": seek, "cut": cut, "m": m, "clean": clean,
		"cerr": cerr, "geoms": rf.geoms, "stream": fragNames[frag]})
	steps := 2 + r.Intn(12)
	if big {
		steps = 2 + r.Intn(5)
	}
	var prev [][4]int
	var log []string
	// Sessions that search again and again, a few boxes in turns.
	loop := seek && rf.idx && r.Intn(4) == 0
	if loop {
		for k := r.Intn(3); k >= 0; k-- {
			prev = append(prev, rf.query(r, nil))
		}
	}
	for i := 0; i < steps; i++ {
		var c Call
		ev := M{"e": "call"}
		x := r.Intn(100)
		if prop == "P06" && x >= 15 && r.Intn(2) == 0 {
			x = []int{20, 92, 25, 20}[r.Intn(4)]
		}
		if loop && i > 0 && x < 90 {
			x = []int{25, 92}[i%2]
			if i == 1 && r.Intn(2) == 0 {
				x = 8
			}
		}
		switch {
		case i == 0 && x < 95 || x < 4:
			c.Op = "Header"
		case x < 12:
			c.Op = "Index"
		case x < 40:
			c.Op = "Search"
			var q [4]int
			if loop && r.Intn(10) > 0 {
				q = prev[r.Intn(len(prev))]
			} else {
				q = rf.query(r, prev)
				prev = append(prev, q)
			}
			c.B = packedrtree.Box{XMin: rf.m.f(q[0]), YMin: rf.m.f(q[1]), XMax: rf.m.f(q[2]), YMax: rf.m.f(q[3])}
			ev["b"] = q
			c.Q = fmt.Sprint(q)
		case x < 62:
			c.Op = "Data"
			c.K = []int{0, 1, 1, 2, 3, 7, n, n + 1, n / 2}[r.Intn(9)]
			ev["k"] = c.K
		case x < 72:
			c.Op = "DataRem"
		case x < 98:
			c.Op = "Rewind"
		default:
			c.Op = "Close"
		}
		was := sk.fired
		o := s.do(c)
		ev["op"], ev["c"], ev["fs"], ev["t"], ev["flt"] = c.Op, o.C, ranges(o.Fs), o.T, !was && sk.fired
		if o.C != "ok" {
			ev["detail"] = s.detail
		}
		tr.emit(ev)
		rep.count("calls "+c.Op+" -> "+o.C, 1)
		if len(log) < 8 {
			log = append(log, fmt.Sprintf("%s -> %s %v %s", c, o.C, ranges(o.Fs), o.T))
		}
	}
	p := s.finish()
	end := M{"e": "end", "intact": p == "" || s.st.closed > 1 || s.st.closed == 0 && s.closed, "closes": sk.closed}
	if p != "" {
		end["problem"] = p
	}
	tr.emit(end)
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	if n > 2 {
		rep.sample(M{"n": n, "known": rf.known, "idx": rf.idx, "seek": seek, "bytes": len(data), "calls": log}, 2)
	}
}

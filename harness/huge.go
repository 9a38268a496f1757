package main

// Searches in files whose data is larger than memory: features of up to
// 4 GiB lie between the ones searched for, and are never read.  The input
// keeps only the bytes that matter.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// segment is a part of a sparse input; what b doesn't cover are zeros.
type segment struct {
	at, size int64
	b        []byte
}

// sparse is an input, or the output of a writer.
type sparse struct {
	segs []segment
	size int64
	pos  int64
	seg  int // of pos, or before
}

func (s *sparse) add(b []byte, size int64) {
	s.segs = append(s.segs, segment{s.size, size, b})
	s.size += size
}

// Write keeps large writes without copying them.
func (s *sparse) Write(p []byte) (int, error) {
	b := p
	if len(p) < 1<<20 {
		b = append([]byte(nil), p...)
	}
	s.add(b, int64(len(p)))
	return len(p), nil
}

func (s *sparse) Read(p []byte) (int, error) {
	if s.pos >= s.size {
		return 0, io.EOF
	}
	if s.seg >= len(s.segs) || s.segs[s.seg].at > s.pos {
		s.seg = 0
	}
	for s.segs[s.seg].at+s.segs[s.seg].size <= s.pos {
		s.seg++
	}
	g := &s.segs[s.seg]
	o := s.pos - g.at
	if m := g.size - o; int64(len(p)) > m {
		p = p[:m]
	}
	if o < int64(len(g.b)) {
		n := copy(p, g.b[o:])
		s.pos += int64(n)
		return n, nil
	}
	// Not filled with zeros: nobody may look at them.
	s.pos += int64(len(p))
	return len(p), nil
}

type sparseSeeker struct{ *sparse }

func (s sparseSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func runHuge(out, tier string, seed int64) {
	rep := newReport()
	shards, per := 4, 40
	if tier == "thorough" {
		per = 600
	}
	traces := make([]string, shards)
	parallel(shards, 4, func(sh int) {
		r := rand.New(rand.NewSource(seed*6007 + int64(sh)))
		name := fmt.Sprintf("huge%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			hugeSession(rep, tr, r, i%20 == sh, i%10 == 5)
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

// hugeSession makes a file, by an independent encoder or by the library,
// and searches it.
func hugeSession(rep *Report, tr *Trace, r *rand.Rand, lib, stream bool) {
	n := 2 + r.Intn(12)
	giant := make([]bool, n)
	first := n
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(n)
		giant[i] = true
		if i < first {
			first = i
		}
	}
	ns := []uint16{2, 3, 4, 16}[r.Intn(4)]
	m := coordMaps[0]
	geoms := []*IGeom{}
	f := &File{ids: map[string]int{}}
	for i := 0; i < n; i++ {
		g := randGeom(r, 2, 30)
		if giant[i] {
			g = &IGeom{XY: []int{5000 + i, 5000 + r.Intn(3)}, Parts: []*IGeom{}}
		}
		geoms = append(geoms, g)
		s := FeatSpec{Geom: g.real(m, r), Props: []byte{0, 0, byte(i), 1}}
		b := emptyBx()
		geomBox(s.Geom, &b)
		f.Boxes = append(f.Boxes, b)
		e := EncodeFeature(s)
		f.Feats = append(f.Feats, e)
		f.ids[string(e)] = i + 1
	}
	in := &sparse{}
	if lib {
		// A large feature is repeated to fill more than 4 GiB.
		var fs []flat.Feature
		add := func(b []byte) {
			var ft flat.Feature
			ft.Init(b, uint32ToU(rootPos(b)))
			fs = append(fs, ft)
		}
		all := []*IGeom{}
		k := 0
		for i := range f.Feats {
			if !giant[i] {
				add(f.Feats[i])
				f.ids[string(f.Feats[i])] = len(fs)
				all = append(all, geoms[i])
				continue
			}
			b := make([]byte, 96<<20)
			copy(b, f.Feats[i])
			binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
			for j := 0; j < 45+r.Intn(4); j++ {
				add(b)
				all = append(all, geoms[i])
			}
			if k++; k == 2 {
				break
			}
		}
		geoms, n = all, len(fs)
		if first > n {
			first = n
		}
		h := EncodeHeader(HeaderSpec{Name: "huge", Count: uint64(n), NodeSize: ns})
		w := flatgeobuf.NewFileWriter(in)
		hdr := flat.GetSizePrefixedRootAsHeader(h, 0)
		var err error
		if _, err = w.Header(hdr); err == nil {
			_, err = w.IndexData(fs)
		}
		if err == nil {
			err = w.Close()
		}
		if err != nil {
			rep.violate(M{"problem": fmt.Sprintf("writing %d features of more than 4 GiB together fails: %v", n, err)})
			return
		}
		f.Hdr = h
		nodes := 0
		for _, k := range levelSizes(n, int(ns)) {
			nodes += k
		}
		f.Idx = make([]byte, 40*nodes)
		in.pos = int64(8 + len(h))
		if _, err := io.ReadFull(in, f.Idx); err != nil {
			die("short file: %v", err)
		}
		in.pos, in.seg = 0, 0
	} else {
		f.Hdr = EncodeHeader(HeaderSpec{Name: "huge", Count: uint64(n), NodeSize: ns})
		size := func(i int) int64 {
			if giant[i] {
				return 4 + int64(binary.LittleEndian.Uint32(f.Feats[i]))
			}
			return int64(len(f.Feats[i]))
		}
		var leaves []Leaf
		o := int64(0)
		for i := range f.Feats {
			if giant[i] {
				binary.LittleEndian.PutUint32(f.Feats[i], []uint32{1<<31 - 4, 1 << 31, 3 << 30, 1<<32 - 5, 1<<32 - 100, 1<<31 - 5}[r.Intn(6)])
			}
			leaves = append(leaves, Leaf{f.Boxes[i], o})
			o += size(i)
		}
		r.Shuffle(n, func(i, j int) { leaves[i], leaves[j] = leaves[j], leaves[i] })
		f.Idx = EncodeIndex(leaves, int(ns))
		b := append(append(append([]byte(nil), magicBytes...), f.Hdr...), f.Idx...)
		in.add(b, int64(len(b)))
		for i := range f.Feats {
			in.add(f.Feats[i], size(i))
		}
	}
	s := &Session{}
	if stream {
		s.open(f, &Stream{}, onlyReader{in})
	} else {
		s.open(f, &Stream{}, sparseSeeker{in})
	}
	tr.emit(M{"e": "begin", "n": n, "known": true, "idx": true, "seek": !stream, "cut": "data", "m": n, "clean": true, "cerr": false, "geoms": geoms})
	steps := 3 + r.Intn(8)
	if stream {
		steps = 2
	}
	last := ""
	for i := 0; i < steps; i++ {
		var c Call
		ev := M{"e": "call", "flt": false}
		switch x := r.Intn(10); {
		case i == 0:
			c.Op = "Header"
		case x == 0 && !stream:
			c.Op = "Index"
		case x < 5 || stream:
			c.Op = "Search"
			a, b := r.Intn(80)-40, r.Intn(80)-40
			q := [4]int{a, b, a + r.Intn(60), b + r.Intn(60)}
			if r.Intn(4) == 0 {
				q = [4]int{-1000, -1000, 1000, 1000}
			}
			c.B = packedrtree.Box{XMin: m.f(q[0]), YMin: m.f(q[1]), XMax: m.f(q[2]), YMax: m.f(q[3])}
			ev["b"] = q
		case x < 6 && first > 0 && (last == "Header" || last == "Rewind"):
			c.Op, c.K = "Data", r.Intn(first+1)
			ev["k"] = c.K
		default:
			c.Op = "Rewind"
		}
		last = c.Op
		o := s.do(c)
		ev["op"], ev["c"], ev["fs"], ev["t"] = c.Op, o.C, ranges(o.Fs), o.T
		if o.C != "ok" {
			ev["detail"] = s.detail
		}
		tr.emit(ev)
		rep.count("calls "+c.Op+" -> "+o.C, 1)
	}
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	rep.count(fmt.Sprintf("files of %d GiB", in.size>>30), 1)
	rep.sample(M{"n": n, "seek": !stream, "by": map[bool]string{true: "library", false: "encoder"}[lib], "bytes": in.size}, 3)
}

// levelSizes gives the numbers of nodes of the levels of an index.
func levelSizes(n, ns int) []int {
	out := []int{n}
	for k := n; k > 1 || len(out) == 1; {
		k = (k + ns - 1) / ns
		out = append(out, k)
	}
	return out
}

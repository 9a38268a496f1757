package main

// Sessions of readers on files which lie somewhere in a larger stream, with
// what is read during every call, recorded for AccessTrace.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// leafOrder gives the features (from 1) in the order of the leaves.
func leafOrder(f *File) []int {
	at := map[uint64]int{}
	o := uint64(0)
	for i, b := range f.Feats {
		at[o] = i + 1
		o += uint64(len(b))
	}
	out := []int{}
	for i := len(f.Idx) - 40*len(f.Feats); i < len(f.Idx); i += 40 {
		out = append(out, at[binary.LittleEndian.Uint64(f.Idx[i+32:])])
	}
	return out
}

// taken describes the ranges read during a call in terms of the file.
type taken struct {
	forward, outside, hdr bool
	nodes, feats          []int
}

func (f *File) taken(log [][2]int64, base int64) (t taken) {
	t.forward = true
	t.nodes, t.feats = []int{}, []int{}
	at := int64(0)
	add := func(s []int, v int) []int {
		if k := len(s); k > 0 && s[k-1] == v {
			return s
		}
		return append(s, v)
	}
	for _, x := range log {
		if x[0] < at {
			t.forward = false
		}
		at = x[1]
		a, b := int(x[0]-base), int(x[1]-base)
		if a < 0 || b > len(f.Bytes) {
			t.outside = true
			continue
		}
		for a < b {
			var hi int
			switch {
			case a < f.HdrEnd:
				hi = f.HdrEnd
				t.hdr = true
			case a < f.IdxEnd:
				k := (a - f.HdrEnd) / 40
				hi = f.HdrEnd + 40*(k+1)
				t.nodes = add(t.nodes, k)
			default:
				for k, e := range f.FeatEnd {
					if hi = e; a < e {
						t.feats = add(t.feats, k+1)
						break
					}
				}
			}
			a = hi
		}
	}
	return
}

// ends lists what ends at a position.
func (f *File) ends(at int) []string {
	out := []string{}
	if at == f.HdrEnd {
		out = append(out, "hdr")
	}
	if at == f.IdxEnd {
		out = append(out, "idx")
	}
	for i, e := range f.FeatEnd {
		if at == e {
			out = append(out, strconv.Itoa(i+1))
		}
	}
	return out
}

func runAccess(out, tier string, seed int64) {
	rep := newReport()
	shards, per := 8, 120
	if tier == "thorough" {
		per = 1500
	}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*7919 + int64(sh)))
		name := fmt.Sprintf("access%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			n := r.Intn(20)
			if i%5 == 0 {
				n = r.Intn(65)
			}
			if i%40 == 3 {
				n = 100 + r.Intn(200)
			}
			rf := makeRandFile(r, n, n > 0 && r.Intn(3) > 0, r.Intn(3) == 0)
			for k := 1 + r.Intn(2); k > 0; k-- {
				accessSession(rep, tr, r, rf, n)
			}
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

func accessSession(rep *Report, tr *Trace, r *rand.Rand, rf *randFile, n int) {
	f := rf.f
	seek := r.Intn(4) > 0
	base := []int{0, 1, 7, 64, 5000}[r.Intn(5)]
	data := append(make([]byte, base), f.Bytes...)
	for i := 0; i < base; i++ {
		data[i] = 0xEE
	}
	if rf.known && r.Intn(3) > 0 {
		data = append(data, garbage[:1+r.Intn(len(garbage)-1)]...)
	}
	sk := &SeekStream{}
	sk.Stream.reset(data, []int{fragWhole, fragWhole, fragRandom, fragMixed, fragOne}[r.Intn(5)], -1, false)
	sk.rnd = rand.New(rand.NewSource(r.Int63()))
	sk.pos = int64(base)
	sk.base = bases[r.Intn(len(bases))]
	var log [][2]int64
	sk.log = &log
	s := &Session{}
	if seek {
		s.open(f, &sk.Stream, sk)
	} else {
		s.open(f, &sk.Stream, &sk.Stream)
	}
	ns, perm := 0, []int{}
	if rf.idx {
		ns = rf.ns
		perm = leafOrder(f)
	}
	tr.emit(M{"e": "begin", "n": n, "known": rf.known, "idx": rf.idx, "seek": seek, "ns": ns, "perm": perm, "geoms": rf.geoms})
	var prev [][4]int
	for i, steps := 0, 3+r.Intn(10); i < steps; i++ {
		var c Call
		ev := M{"e": "call"}
		x := r.Intn(100)
		switch {
		case i == 0 && x < 95 || x < 4:
			c.Op = "Header"
		case x < 16:
			c.Op = "Index"
		case x < 45:
			c.Op = "Search"
			q := rf.query(r, prev)
			prev = append(prev, q)
			c.B = packedrtree.Box{XMin: rf.m.f(q[0]), YMin: rf.m.f(q[1]), XMax: rf.m.f(q[2]), YMax: rf.m.f(q[3])}
			ev["b"] = q
		case x < 62:
			c.Op = "Data"
			c.K = []int{0, 1, 1, 2, 3, n, n / 2}[r.Intn(7)]
			ev["k"] = c.K
		case x < 67:
			c.Op = "DataRem"
		case x < 99:
			c.Op = "Rewind"
		default:
			c.Op = "Close"
		}
		log = log[:0]
		o := s.do(c)
		t := f.taken(log, int64(base))
		ev["op"], ev["c"], ev["fs"], ev["t"] = c.Op, o.C, ranges(o.Fs), o.T
		ev["forward"], ev["outside"], ev["hdr"] = t.forward, t.outside, t.hdr
		ev["nodes"], ev["feats"] = ranges(t.nodes), ranges(t.feats)
		ev["at"] = f.ends(int(sk.pos) - base)
		if o.C == "panic" {
			ev["detail"] = s.detail
		}
		tr.emit(ev)
		rep.count("calls "+c.Op+" -> "+o.C, 1)
	}
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	if n > 2 {
		rep.sample(M{"n": n, "known": rf.known, "idx": rf.idx, "seek": seek, "base": base, "bytes": len(data)}, 2)
	}
}

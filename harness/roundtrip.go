package main

// Random writer sessions followed by reader sessions on their output,
// recorded for RoundTripTrace.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// tokenize splits an output into units, from the format alone.
func tokenize(b, hdr []byte, n, ns int, plan []string, s *WSession) (units []string, rest int) {
	units = []string{}
	if len(b) < 8 {
		return units, len(b)
	}
	if !bytes.Equal(b[:8], magicBytes) {
		return append(units, "wrong magic"), len(b)
	}
	units = append(units, "M")
	b = b[8:]
	if len(b) < 4 || len(b) < 4+int(binary.LittleEndian.Uint32(b)) {
		return units, len(b)
	}
	k := 4 + int(binary.LittleEndian.Uint32(b))
	if !bytes.Equal(b[:k], hdr) {
		return append(units, "wrong header"), len(b)
	}
	units = append(units, "H")
	b = b[k:]
	if n > 0 && ns > 0 {
		k = indexSize(n, ns)
		if len(b) < k {
			return units, len(b)
		}
		sub := *s
		sub.ns = ns
		if p := sub.checkLibIndex(b[:k], plan); p != "" {
			return append(units, "wrong index: "+p), len(b)
		}
		units = append(units, "I")
		b = b[k:]
	}
	byContent := map[string]string{}
	for name, c := range s.feats {
		byContent[string(c)] = name
	}
	for len(b) >= 4 && len(b) >= 4+int(binary.LittleEndian.Uint32(b)) {
		k = 4 + int(binary.LittleEndian.Uint32(b))
		name, ok := byContent[string(b[:k])]
		if !ok {
			name = "unknown feature"
		}
		units = append(units, name)
		b = b[k:]
	}
	return units, len(b)
}

func runRoundTrip(prop, out, tier string, seed int64) {
	rep := newReport()
	shards, per := 8, 160
	if tier == "thorough" {
		per = 1800
	}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*7919 + int64(sh)))
		name := fmt.Sprintf("rt%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			n := r.Intn(12)
			if i%40 == 3 {
				n = []int{1, 17, 33, 64, 100, 200, 256, 300}[(sh+i)%8]
			} else if i%8 == 5 {
				n = r.Intn(40)
			}
			roundTrip(rep, tr, r, prop, n)
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

func roundTrip(rep *Report, tr *Trace, r *rand.Rand, prop string, n int) {
	// The features: a pool, with repetitions when it is small.
	m := coordMaps[r.Intn(len(coordMaps))]
	s := &WSession{feats: map[string][]byte{}, boxes: map[string]Bx{}}
	geoms := M{}
	pool := 1 + r.Intn(n+1)
	span := 10 + r.Intn(60)
	names := []string{}
	for i := 0; i < pool; i++ {
		g := &IGeom{XY: []int{}, Parts: []*IGeom{}}
		sp := FeatSpec{Pad: []int{0, 0, 1, 7, 64, 5000, 70000}[r.Intn(7)]}
		if n > 40 {
			sp.Pad = r.Intn(9)
		} else if r.Intn(10) == 0 {
			sp.Pad, sp.Total = 0, roundSize(r, r.Intn(20) == 0)
		}
		if r.Intn(8) > 0 {
			g = someGeom(r, 2, span)
			sp.Geom = g.real(m, r)
		}
		sp.Props = []byte{0, 0, byte(i), byte(i >> 8), 0, 1}
		name := fmt.Sprintf("f%d", i)
		names = append(names, name)
		s.addFeature(name, sp)
		geoms[name] = g
	}
	plan := []string{}
	for i := 0; i < n; i++ {
		if n <= pool || r.Intn(3) > 0 {
			plan = append(plan, names[i%pool])
		} else {
			plan = append(plan, names[r.Intn(pool)])
		}
	}
	r.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
	// The declaration.
	h := HeaderSpec{Name: []string{"", "x", "a longer name"}[r.Intn(3)], GeomType: byte(r.Intn(18)), Title: []string{"", "t"}[r.Intn(2)]}
	for i := r.Intn(4); i > 0; i-- {
		h.Columns = append(h.Columns, Column{fmt.Sprint("c", i), byte(r.Intn(15))})
	}
	if r.Intn(8) == 0 {
		h.Total = roundSize(r, false)
	}
	known := n > 0 && r.Intn(4) > 0
	if known {
		h.Count = uint64(n)
	}
	if known && r.Intn(3) > 0 {
		h.NodeSize = []uint16{2, 2, 3, 4, 7, 16, 16, 100, 65535}[r.Intn(9)]
	} else if r.Intn(12) == 0 {
		h.NodeSize = 16
	}
	s.n, s.ns = int(h.Count), int(h.NodeSize)
	s.hdr = EncodeHeader(h)
	refused, bad := badHeaders(wshape{N: s.n, NS: s.ns})
	s.hdrs = map[string][]byte{"refused": refused[r.Intn(len(refused))], "bad": bad[r.Intn(len(bad))]}
	s.bad = malformedFeatures(s.feats[names[0]])
	s.plan = plan

	sink := &Sink{budget: -1}
	if prop == "P09" || prop == "P05" && r.Intn(8) == 0 {
		tot := len(s.hdr) + 8
		for _, x := range plan {
			tot += len(s.feats[x])
		}
		if s.ns > 0 && n > 0 {
			tot += indexSize(n, s.ns)
		}
		sink.budget = r.Intn(tot + 1)
		sink.part, sink.full, sink.once = r.Intn(2) == 0, r.Intn(4) == 0, r.Intn(2) == 0
	}
	sink.cerr = r.Intn(12) == 0
	s.open(sink)
	tr.emit(M{"e": "begin", "n": s.n, "ns": s.ns, "cerr": sink.cerr, "plan": plan, "geoms": geoms})

	var log []string
	call := func(c WCall, ev M) WAns {
		was := sink.fired
		o := s.do(c)
		ev["e"], ev["op"], ev["c"], ev["part"], ev["flt"] = "w", c.Op, o.C, o.Part, !was && sink.fired
		ev["n"], ev["delta"] = s.lastN, s.delta
		if o.Out == nil {
			o.Out = []string{}
		}
		ev["out"] = o.Out
		if s.mut != "" {
			ev["c"] = s.mut
		}
		tr.emit(ev)
		rep.count("writer "+c.Op+" -> "+o.C, 1)
		if len(log) < 10 && len(o.Out) < 10 {
			log = append(log, fmt.Sprintf("%s -> %s %v", c.Op, o.C, o.Out))
		}
		return o
	}
	hdr := func(arg string) WAns { return call(WCall{Op: "Header", Arg: arg}, M{"arg": arg}) }
	index := func(k, ns int) WAns {
		return call(WCall{Op: "Index", IxN: k, IxNS: ns}, M{"ix": M{"n": k, "ns": ns}})
	}
	idata := func(fs []string) WAns {
		return call(WCall{Op: "IndexData", Feats: fs, Ptr: r.Intn(2) == 0}, M{"fs": append([]string{}, fs...)})
	}
	data := func(x string) WAns { return call(WCall{Op: "Data", Feats: []string{x}}, M{"x": x}) }
	written := 0
	noise := func() {
		if r.Intn(3) > 0 {
			return
		}
		switch r.Intn(8) {
		case 0:
			if written > 0 {
				hdr("good")
			}
		case 1:
			hdr("refused")
		case 2:
			index(n+1, 2)
		case 3:
			index(1+r.Intn(n+1), 2+r.Intn(3)+70)
		case 4:
			idata([]string{})
		case 5:
			data("bad")
		case 6:
			if n > 0 {
				fs := append([]string{}, plan...)
				fs[r.Intn(n)] = "bad"
				idata(fs)
			}
		case 7:
			if n > 1 {
				idata(plan[1:])
			}
		}
	}
	noise()
	early := 1 << 30
	if r.Intn(6) == 0 {
		early = r.Intn(n + 3)
	}
	if r.Intn(40) == 0 {
		hdr("bad")
	}
	if early > 0 {
		hdr("good")
	}
	noise()
	if early > 1 {
		mode := r.Intn(2)
		if s.ns > 0 && mode == 0 {
			idata(plan)
			noise()
		} else {
			if s.ns > 0 && n > 0 {
				index(n, s.ns)
				noise()
			}
			for i, x := range plan {
				if i+2 > early {
					break
				}
				if data(x).C == "ok" || r.Intn(2) == 0 && data(x).C == "ok" {
					written++
				}
				noise()
			}
		}
	}
	if r.Intn(10) > 0 {
		call(WCall{Op: "Close"}, M{})
		if r.Intn(4) == 0 {
			call(WCall{Op: "Close"}, M{})
			data(names[0])
			hdr("good")
			index(n+1, 2)
		}
	}
	units, rest := tokenize(sink.buf, s.hdr, s.n, s.ns, plan, s)
	tr.emit(M{"e": "layout", "units": units, "rest": rest, "closes": sink.closed})

	// Read it back.
	f := &File{Bytes: sink.buf, Hdr: s.hdr, ids: map[string]int{}}
	if s.ns > 0 && s.n > 0 && len(units) > 2 {
		o := 8 + len(s.hdr)
		f.Idx = sink.buf[o : o+indexSize(s.n, s.ns)]
	}
	for i, x := range names {
		f.ids[string(s.feats[x])] = i + 1
	}
	// A search means nothing if the data is not what the index is about.
	planned := true
	if len(units) > 3 && s.ns > 0 {
		for i, u := range units[3:] {
			planned = planned && i < n && u == plan[i]
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		sk := &SeekStream{}
		cerr := r.Intn(10) == 0
		frag := r.Intn(2 * numFrag)
		if frag >= numFrag {
			frag = fragWhole
		}
		sk.Stream.reset(sink.buf, frag, -1, cerr)
		sk.rnd = rand.New(rand.NewSource(r.Int63()))
		rs := &Session{keep: true}
		seek := r.Intn(2) == 0
		if seek {
			rs.open(f, &sk.Stream, sk)
		} else {
			rs.open(f, &sk.Stream, &sk.Stream)
		}
		tr.emit(M{"e": "open", "seek": seek, "cerr": cerr, "stream": fragNames[frag]})
		for i, steps := 0, 3+r.Intn(7); i < steps; i++ {
			var c Call
			ev := M{"e": "r"}
			switch x := r.Intn(20); {
			case i == 0:
				c.Op = "Header"
			case x < 2:
				c.Op = "Index"
			case x < 6 && planned:
				c.Op = "Search"
				a, b := r.Intn(span)-span/2, r.Intn(span)-span/2
				q := [4]int{a, b, a + r.Intn(span), b + r.Intn(span)}
				if r.Intn(3) == 0 {
					q = [4]int{-10000, -10000, 10000, 10000}
				}
				c.B = packedrtree.Box{XMin: m.f(q[0]), YMin: m.f(q[1]), XMax: m.f(q[2]), YMax: m.f(q[3])}
				ev["b"] = q
			case x < 12:
				c.Op = "Data"
				c.K = []int{0, 1, 2, 5, n, n + 1, n / 2}[r.Intn(7)]
				ev["k"] = c.K
			case x < 15:
				c.Op = "DataRem"
			case x < 19:
				c.Op = "Rewind"
			default:
				c.Op = "Close"
			}
			o := rs.do(c)
			fs := []string{}
			for _, id := range o.Fs {
				if id < 1 {
					fs = append(fs, "unknown feature")
				} else {
					fs = append(fs, names[id-1])
				}
			}
			ev["op"], ev["c"], ev["fs"], ev["t"] = c.Op, o.C, fs, o.T
			if o.C != "ok" {
				ev["detail"] = rs.detail
			}
			tr.emit(ev)
			rep.count("reader "+c.Op+" -> "+o.C, 1)
		}
		p := rs.finish()
		end := M{"e": "end", "intact": p == "" || rs.st.closed > 1 || rs.st.closed == 0 && rs.closed, "closes": sk.closed}
		if p != "" {
			end["problem"] = p
		}
		tr.emit(end)
	}
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	if n > 2 {
		rep.sample(M{"declared": s.n, "node_size": s.ns, "bytes": len(sink.buf), "writer_calls": log, "units": len(units)}, 2)
	}
}

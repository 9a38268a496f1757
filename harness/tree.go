package main

// The index: rows exported from PackedRTreeMC.tla replayed on the real code,
// and random sessions recorded for PackedRTreeTrace and IndexSizeTrace.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

const infInt = 1000000000

type rowRef struct {
	B [4]int `json:"b"`
	O int    `json:"o"`
}

type treeRow struct {
	Refs    []rowRef `json:"refs"`
	NS      int      `json:"ns"`
	Nodes   []rowRef `json:"nodes"`
	Answers []struct {
		Q     [4]int `json:"q"`
		Hits  []int  `json:"hits"`
		Reads []int  `json:"reads"`
	} `json:"answers"`
}

// plane maps logged integers to coordinates and offsets, keeping order.
type plane struct {
	f   func(int) float64
	off func(int) int64
}

func (p plane) box(b [4]int) packedrtree.Box {
	if b[0] == infInt {
		return packedrtree.EmptyBox
	}
	return packedrtree.Box{XMin: p.f(b[0]), YMin: p.f(b[1]), XMax: p.f(b[2]), YMax: p.f(b[3])}
}

func (p plane) refs(rs []rowRef) []packedrtree.Ref {
	out := make([]packedrtree.Ref, len(rs))
	for i, r := range rs {
		out[i] = packedrtree.Ref{Box: p.box(r.B), Offset: p.off(r.O)}
	}
	return out
}

// encode gives the serialized form of nodes: the first n-k of them internal.
func (p plane) encode(nodes []rowRef, leaves int) []byte {
	var w bytes.Buffer
	for i, nd := range nodes {
		b := p.box(nd.B)
		for _, v := range []float64{b.XMin, b.YMin, b.XMax, b.YMax} {
			_ = binary.Write(&w, binary.LittleEndian, math.Float64bits(v))
		}
		o := int64(nd.O)
		if i >= len(nodes)-leaves {
			o = p.off(nd.O)
		}
		_ = binary.Write(&w, binary.LittleEndian, uint64(o))
	}
	return w.Bytes()
}

func planes() []plane {
	id := func(k int) int64 { return int64(k) }
	var out []plane
	for i, m := range coordMaps {
		m := m
		off := id
		switch i % 3 {
		case 1:
			off = func(k int) int64 { return int64(k) << 40 }
		case 2:
			off = func(k int) int64 { return math.MaxInt64 - 1000000 + int64(k) }
		}
		out = append(out, plane{m.f, off})
	}
	return out
}

var garbage = bytes.Repeat([]byte{0xEE, 0x7F, 0xFF}, 60)

func guard(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func wantResults(refs []packedrtree.Ref, hits []int) packedrtree.Results {
	out := packedrtree.Results{}
	for _, h := range hits {
		out = append(out, packedrtree.Result{Offset: refs[h].Offset, RefIndex: h})
	}
	return out
}

func sameResults(a, b packedrtree.Results) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func byIndex(rs packedrtree.Results) packedrtree.Results {
	o := append(packedrtree.Results{}, rs...)
	sort.Slice(o, func(i, j int) bool { return o[i].RefIndex < o[j].RefIndex })
	return o
}

// checkRow replays one row; it returns a description of a deviation.
func checkRow(prop string, row *treeRow, p plane, salt int) (problem string) {
	refs := p.refs(row.Refs)
	orig := append([]packedrtree.Ref(nil), refs...)
	want := p.encode(row.Nodes, len(row.Refs))
	ns := uint16(row.NS)
	if p := guard(func() {
		switch prop {
		case "P01":
			t, err := packedrtree.New(refs, ns)
			if err != nil {
				problem = "New: " + err.Error()
				return
			}
			for i := range refs {
				if refs[i] != orig[i] {
					problem = fmt.Sprintf("New changed reference %d", i)
				}
				refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: -1e9, YMin: -1e9, XMax: 1e9, YMax: 1e9}, Offset: -7}
			}
			if t.NumRefs() != len(orig) || int(t.NodeSize()) != row.NS {
				problem = fmt.Sprintf("NumRefs %d NodeSize %d", t.NumRefs(), t.NodeSize())
			}
			if b := p.box(row.Nodes[0].B); t.Bounds() != b {
				problem = fmt.Sprintf("Bounds %v, want %v", t.Bounds(), b)
			}
			for _, a := range row.Answers {
				got := t.Search(p.box(a.Q))
				if !sameResults(byIndex(got), wantResults(orig, a.Hits)) {
					problem = fmt.Sprintf("Search(%v) = %v, want references %v", a.Q, got, a.Hits)
					return
				}
			}
		case "P02":
			t, err := packedrtree.Unmarshal(bytes.NewReader(want), len(refs), ns)
			if err != nil {
				problem = "Unmarshal: " + err.Error()
				return
			}
			for k, a := range row.Answers {
				start := (salt*7 + k*13) % len(garbage)
				s := &SeekStream{}
				data := append(append(append([]byte(nil), garbage[:start]...), want...), garbage...)
				frag := (salt + k) % numFrag
				s.reset(data, frag, -1, false)
				s.rnd = rand.New(rand.NewSource(int64(salt)))
				s.pos = int64(start)
				s.base = bases[(salt+k*3)%len(bases)]
				got, err := packedrtree.Seek(s, len(refs), ns, p.box(a.Q))
				if err != nil {
					problem = fmt.Sprintf("Seek(%v): %v", a.Q, err)
					return
				}
				w := wantResults(orig, a.Hits)
				if !sameResults(got, w) {
					problem = fmt.Sprintf("Seek(%v) = %v, want %v", a.Q, got, w)
					return
				}
				if m := byIndex(t.Search(p.box(a.Q))); !sameResults(m, got) {
					problem = fmt.Sprintf("Seek(%v) = %v, in-memory search finds %v", a.Q, got, m)
					return
				}
				if s.pos != int64(start+len(want)) {
					problem = fmt.Sprintf("Seek(%v) left the stream at %d, want %d", a.Q, s.pos, start+len(want))
					return
				}
				if s.minPos < int64(start) || s.maxPos > int64(start+len(want)) {
					problem = fmt.Sprintf("Seek(%v) read bytes %d..%d of an index at %d..%d", a.Q, s.minPos, s.maxPos, start, start+len(want))
					return
				}
			}
		case "P19":
			for k, a := range row.Answers {
				start := (salt*7 + k*13) % len(garbage)
				var log [][2]int64
				s := &SeekStream{}
				s.reset(append(append(append([]byte(nil), garbage[:start]...), want...), garbage...), (salt+k)%numFrag, -1, false)
				s.rnd, s.log, s.pos = rand.New(rand.NewSource(int64(salt))), &log, int64(start)
				got, err := packedrtree.Seek(s, len(refs), ns, p.box(a.Q))
				if err != nil || len(got) != len(a.Hits) {
					problem = fmt.Sprintf("Seek(%v): %d results, %v", a.Q, len(got), err)
					return
				}
				if s.pos != int64(start+len(want)) {
					problem = fmt.Sprintf("Seek(%v) left the stream at %d, want %d", a.Q, s.pos, start+len(want))
					return
				}
				need := map[int64]bool{}
				for _, n := range a.Reads {
					need[int64(n)] = true
				}
				at := int64(0)
				for _, x := range log {
					if x[0] < at {
						problem = fmt.Sprintf("Seek(%v) read backwards: %v", a.Q, log)
						return
					}
					at = x[1]
					for i := (x[0] - int64(start)) / 40; i*40 < x[1]-int64(start); i++ {
						if x[0] < int64(start) || !need[i] {
							problem = fmt.Sprintf("Seek(%v) read %v of an index at %d, but only nodes %v are needed", a.Q, log, start, a.Reads)
							return
						}
					}
				}
			}
		case "P03":
			sz, err := packedrtree.Size(len(refs), ns)
			if err != nil || sz != len(want) {
				problem = fmt.Sprintf("Size = %d, %v, want %d", sz, err, len(want))
				return
			}
			t, err := packedrtree.New(refs, ns)
			if err != nil {
				problem = "New: " + err.Error()
				return
			}
			var b bytes.Buffer
			n, err := t.Marshal(&b)
			if err != nil || n != len(want) || !bytes.Equal(b.Bytes(), want) {
				problem = fmt.Sprintf("Marshal reported %d, %v and wrote %x, want %x", n, err, b.Bytes(), want)
				return
			}
			s := &Stream{}
			data := append(append([]byte(nil), want...), garbage...)
			s.reset(data, salt%numFrag, -1, false)
			s.rnd = rand.New(rand.NewSource(int64(salt)))
			u, err := packedrtree.Unmarshal(s, len(refs), ns)
			if err != nil || s.pos != int64(len(want)) {
				problem = fmt.Sprintf("Unmarshal: %v, consumed %d of %d", err, s.pos, len(want))
				return
			}
			b.Reset()
			if _, err = u.Marshal(&b); err != nil || !bytes.Equal(b.Bytes(), want) {
				problem = fmt.Sprintf("a loaded tree serializes to %x, want %x", b.Bytes(), want)
				return
			}
			for _, a := range row.Answers {
				if got := u.Search(p.box(a.Q)); !sameResults(byIndex(got), wantResults(orig, a.Hits)) {
					problem = fmt.Sprintf("Search(%v) on the loaded tree = %v, want references %v", a.Q, got, a.Hits)
					return
				}
			}
			// Cut short at every byte (for some rows) or at one byte, and failing.
			cuts := []int{(salt * 31) % len(want), len(want) - 1}
			if salt%97 == 0 {
				for i := range want {
					cuts = append(cuts, i)
				}
			}
			for _, c := range cuts {
				s.reset(want[:c], (salt+c)%numFrag, -1, false)
				if _, err := packedrtree.Unmarshal(s, len(refs), ns); err == nil {
					problem = fmt.Sprintf("Unmarshal succeeds on %d of %d bytes", c, len(want))
					return
				}
			}
			s.reset(want, fragWhole, 0, false)
			if _, err := packedrtree.Unmarshal(s, len(refs), ns); err == nil {
				problem = "Unmarshal succeeds on a failing stream"
			}
		}
	}); p != nil {
		return fmt.Sprint("panic: ", p)
	}
	return problem
}

func runTreeRows(prop, edges, out, tier string, seed int64) {
	rep := newReport()
	fh, err := os.Open(edges)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	var rows []*treeRow
	for sc.Scan() {
		row := &treeRow{}
		if err := json.Unmarshal(sc.Bytes(), row); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, row)
	}
	ps := planes()
	parallel(len(rows), 8, func(i int) {
		for k, p := range ps {
			if rep.stop() {
				return
			}
			if pr := checkRow(prop, rows[i], p, i*len(ps)+k+int(seed)); pr != "" {
				rep.violate(M{"problem": pr, "row": rows[i], "coordinates": fmt.Sprintf("%+v", coordMaps[k])})
			}
			rep.eval.Add(int64(len(rows[i].Answers)))
		}
	})
	rep.Counts["rows"] = int64(len(rows))
	for i := 0; i < 2 && len(rows) > 0; i++ {
		rep.sample(rows[(i*7919+int(seed))%len(rows)], 2)
	}
	rep.write(out)
}

// Random sessions.

func randBoxes(r *rand.Rand, n int, empty bool, lim int) [][4]int {
	span := []int{2, 6, 30, lim}[r.Intn(4)]
	if span > lim {
		span = lim
	}
	out := make([][4]int, n)
	for i := range out {
		x, y := r.Intn(2*span+1)-span, r.Intn(2*span+1)-span
		w, h := r.Intn(3), r.Intn(3)
		switch r.Intn(10) {
		case 0:
			w = 2 * span
		case 1:
			h = r.Intn(span + 1)
		case 2:
			w, h = 0, 0
		}
		cl := func(v int) int {
			if v > lim {
				return lim
			}
			return v
		}
		out[i] = [4]int{x, y, cl(x + w), cl(y + h)}
		if empty && r.Intn(9) == 0 {
			out[i] = [4]int{infInt, infInt, -infInt, -infInt}
		}
		if i > 0 && r.Intn(10) == 0 {
			out[i] = out[r.Intn(i)]
		}
	}
	return out
}

const treeLim = 50

func runTreeRandom(prop, out, tier string, seed int64) {
	rep := newReport()
	shards, per, big := 8, 110, 1500
	if tier == "thorough" {
		per, big = 1000, 4000
	}
	ps := planes()
	// The ends of the range of coordinates are infinite.
	infinite := plane{func(i int) float64 {
		switch i {
		case treeLim:
			return math.Inf(1)
		case -treeLim:
			return math.Inf(-1)
		}
		return float64(i) * 1e300
	}, func(k int) int64 { return -int64(k) }}
	denormal := plane{func(i int) float64 { return float64(i) * 5e-324 }, func(k int) int64 { return int64(k) * 3 }}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*104729 + int64(sh)))
		name := fmt.Sprintf("tree%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			n := 1 + r.Intn(20)
			switch {
			case i == 0:
				n = big/2 + r.Intn(big/2)
			case i%20 == 4:
				n = 1 + r.Intn(300)
			}
			p := ps[r.Intn(len(ps))]
			empty := true
			switch r.Intn(6) {
			case 0:
				p, empty = infinite, false
			case 1:
				p = denormal
			}
			treeSession(rep, tr, r, prop, n, p, empty)
		}
		tr.close()
	})
	rep.Traces = traces
	sizes := []int{65535, 65536, 70000, 131072, 140001}
	parallel(len(sizes), 5, func(i int) {
		if p := bigTree(prop, sizes[i], seed); p != "" {
			rep.violate(M{"problem": fmt.Sprintf("index of %d references: %s", sizes[i], p)})
		}
		rep.count("big trees", 1)
	})
	rep.write(out)
}

// bigTree checks a tree too large for TLC against EncodeIndex (the encoder
// with which the files of the other sessions are made) and a linear search.
func bigTree(prop string, n int, seed int64) (problem string) {
	r := rand.New(rand.NewSource(seed + int64(n)))
	ns := []int{2, 16, 255, 65535}[r.Intn(4)]
	leaves := make([]Leaf, n)
	for i := range leaves {
		x, y := float64(r.Intn(1000)), float64(r.Intn(1000))
		leaves[i] = Leaf{Bx{x, y, x + float64(r.Intn(3)), y + float64(r.Intn(3))}, int64(i) * 100}
	}
	enc := EncodeIndex(leaves, ns)
	if p := guard(func() {
		t, err := packedrtree.New(refsOf(leaves), uint16(ns))
		if err != nil {
			problem = err.Error()
			return
		}
		var b bytes.Buffer
		if k, err := t.Marshal(&b); err != nil || k != len(enc) || !bytes.Equal(b.Bytes(), enc) {
			problem = fmt.Sprintf("Marshal wrote something else (%d bytes reported, %v)", k, err)
			return
		}
		s := &SeekStream{}
		s.reset(append(append(append([]byte(nil), garbage...), enc...), garbage...), fragWhole, -1, false)
		s.pos = int64(len(garbage))
		u, err := packedrtree.Unmarshal(s, n, uint16(ns))
		if err != nil || s.pos != int64(len(garbage)+len(enc)) {
			problem = fmt.Sprintf("Unmarshal: %v, stream at %d", err, s.pos)
			return
		}
		b.Reset()
		if _, err := u.Marshal(&b); err != nil || !bytes.Equal(b.Bytes(), enc) {
			problem = "a loaded tree serializes to something else"
			return
		}
		for i := 0; i < 8; i++ {
			x, y := float64(r.Intn(1000)), float64(r.Intn(1000))
			q := packedrtree.Box{XMin: x, YMin: y, XMax: x + float64(r.Intn(60)), YMax: y + float64(r.Intn(60))}
			want := packedrtree.Results{}
			for k, l := range leaves {
				if l.B.X0 <= q.XMax && l.B.X1 >= q.XMin && l.B.Y0 <= q.YMax && l.B.Y1 >= q.YMin {
					want = append(want, packedrtree.Result{Offset: l.Off, RefIndex: k})
				}
			}
			s.pos = int64(len(garbage))
			got, err := packedrtree.Seek(s, n, uint16(ns), q)
			if err != nil || !sameResults(got, want) || s.pos != int64(len(garbage)+len(enc)) {
				problem = fmt.Sprintf("Seek(%v): %d of %d results, %v, stream at %d", q, len(got), len(want), err, s.pos)
				return
			}
			if !sameResults(byIndex(t.Search(q)), want) || !sameResults(byIndex(u.Search(q)), want) {
				problem = fmt.Sprintf("Search(%v) is wrong", q)
				return
			}
		}
	}); p != nil {
		problem = fmt.Sprint("panic: ", p)
	}
	return
}

func treeSession(rep *Report, tr *Trace, r *rand.Rand, prop string, n int, p plane, empty bool) {
	ns := []int{2, 2, 3, 4, 5, 8, 16, 16, 17, 255, 256, 1000, 32768, 65535}[r.Intn(14)]
	if r.Intn(4) == 0 {
		ns = n + r.Intn(3) - 1
		if ns < 2 || ns > 65535 {
			ns = 2
		}
	}
	bs := randBoxes(r, n, empty, treeLim)
	rows := make([]rowRef, n)
	logged := make([][5]int, n)
	perm := r.Perm(n)
	order := r.Intn(3)
	for i, b := range bs {
		o := i * 3
		switch order {
		case 1:
			o = perm[i]
		case 2:
			o = r.Intn(n)
		}
		rows[i] = rowRef{b, o}
		logged[i] = [5]int{b[0], b[1], b[2], b[3], o}
	}
	tr.emit(M{"e": "begin", "ns": ns, "refs": logged})
	refs := p.refs(rows)
	orig := append([]packedrtree.Ref(nil), refs...)
	// Back from coordinates and offsets to integers.
	inv := map[float64]int{}
	for i := -treeLim; i <= treeLim; i++ {
		inv[p.f(i)] = i
	}
	if empty {
		inv[math.Inf(1)], inv[math.Inf(-1)] = infInt, -infInt
	}
	back := func(f float64) int {
		if i, ok := inv[f]; ok {
			return i
		}
		return 77777777
	}
	offs := map[int64]int{}
	for _, x := range rows {
		offs[p.off(x.O)] = x.O
	}
	backOff := func(o int64) int {
		if i, ok := offs[o]; ok {
			return i
		}
		return 77777777
	}
	ibox := func(b packedrtree.Box) [4]int {
		return [4]int{back(b.XMin), back(b.YMin), back(b.XMax), back(b.YMax)}
	}
	ires := func(rs packedrtree.Results) [][2]int {
		out := [][2]int{}
		for _, x := range rs {
			out = append(out, [2]int{backOff(x.Offset), x.RefIndex})
		}
		return out
	}
	fail := func(what string, p interface{}) {
		tr.emit(M{"e": "panic", "in": what, "detail": fmt.Sprint(p)})
	}
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	var t *packedrtree.PackedRTree
	var enc bytes.Buffer
	if p := guard(func() {
		var err error
		if t, err = packedrtree.New(refs, uint16(ns)); err != nil {
			panic(err)
		}
		args := true
		for i := range refs {
			args = args && refs[i] == orig[i]
			refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: -1e99, YMin: -1e99, XMax: 1e99, YMax: 1e99}, Offset: -3}
		}
		k, err := t.Marshal(&enc)
		if err != nil {
			panic(err)
		}
		sz, err := packedrtree.Size(n, uint16(ns))
		if err != nil {
			panic(err)
		}
		b := enc.Bytes()
		var nodes [][5]int
		for o := 0; o+40 <= len(b); o += 40 {
			f := func(i int) int { return back(math.Float64frombits(binary.LittleEndian.Uint64(b[o+i:]))) }
			off := int64(binary.LittleEndian.Uint64(b[o+32:]))
			x := int(off)
			if o >= len(b)-40*n {
				x = backOff(off)
			} else if off < 0 || off > 1e6 {
				x = 77777777
			}
			nodes = append(nodes, [5]int{f(0), f(8), f(16), f(24), x})
		}
		tr.emit(M{"e": "new", "nodes": nodes, "bounds": ibox(t.Bounds()), "count": t.NumRefs(), "ns": int(t.NodeSize()),
			"bytes": len(b), "reported": k, "size": sz, "args": args})
	}); p != nil {
		fail("New", p)
		return
	}
	b := enc.Bytes()
	query := func() ([4]int, packedrtree.Box) {
		q := randBoxes(r, 1, false, treeLim)[0]
		if r.Intn(3) == 0 {
			if x := bs[r.Intn(n)]; x[0] != infInt {
				// Touching it, or just missing it.
				q[0] = x[2] + r.Intn(2)
				if q[0] > treeLim {
					q[0] = treeLim
				}
				if q[2] < q[0] {
					q[2] = q[0]
				}
			}
		}
		if r.Intn(5) == 0 {
			q = [4]int{-treeLim, -treeLim, treeLim, treeLim}
		}
		return q, p.box(q)
	}
	str := func(data []byte, start int) *SeekStream {
		s := &SeekStream{}
		s.reset(data, r.Intn(numFrag), -1, false)
		s.rnd = rand.New(rand.NewSource(r.Int63()))
		s.pos = int64(start)
		s.base = bases[r.Intn(len(bases))]
		return s
	}
	searches := 2 + r.Intn(4)
	for i := 0; i < searches; i++ {
		q, bx := query()
		if p := guard(func() {
			tr.emit(M{"e": "search", "b": q, "res": ires(t.Search(bx))})
		}); p != nil {
			fail("Search", p)
			return
		}
	}
	rep.count("searches", int64(searches))
	if prop == "P01" {
		return
	}
	if p := guard(func() {
		s := str(append(append([]byte(nil), b...), garbage...), 0)
		u, err := packedrtree.Unmarshal(&s.Stream, n, uint16(ns))
		if err != nil {
			panic(err)
		}
		var again bytes.Buffer
		_, err = u.Marshal(&again)
		tr.emit(M{"e": "load", "c": "ok", "consumed": s.pos, "same": err == nil && bytes.Equal(again.Bytes(), b),
			"bounds": ibox(u.Bounds()), "count": u.NumRefs(), "ns": int(u.NodeSize())})
		for i := 0; i < 3; i++ {
			q, bx := query()
			tr.emit(M{"e": "search", "b": q, "res": ires(u.Search(bx))})
			start := r.Intn(len(garbage))
			if r.Intn(20) == 0 {
				start = 0
			}
			data := append(append(append([]byte(nil), garbage[:start]...), b...), garbage...)
			s := str(data, start)
			res, err := packedrtree.Seek(s, n, uint16(ns), bx)
			c := "ok"
			if err != nil {
				c = err.Error()
			}
			lo := s.minPos
			if lo > 1<<30 {
				lo = 1 << 30
			}
			tr.emit(M{"e": "seek", "b": q, "start": start, "c": c, "res": ires(res), "pos": s.pos, "lo": lo, "hi": s.maxPos})
			rep.count("streaming searches", 1)
			// On a damaged stream.
			cut := r.Intn(len(b))
			s = str(data[:start+cut], start)
			if r.Intn(2) == 0 {
				s = str(data, start)
				s.failAt = r.Intn(8)
				s.part, s.once = r.Intn(2) == 0, r.Intn(2) == 0
			}
			res, err = packedrtree.Seek(s, n, uint16(ns), bx)
			c = "ok"
			if err != nil {
				c, res = "err", nil
			} else if s.fired {
				c = "ok in spite of a failure"
			}
			tr.emit(M{"e": "seekcut", "b": q, "c": c, "res": ires(res)})
		}
		for i := 0; i < 4; i++ {
			cut := r.Intn(len(b) + 2)
			if r.Intn(2) == 0 {
				cut = 40*r.Intn(len(b)/40+1) + r.Intn(3) - 1
			}
			if cut < 0 || cut > len(b) {
				cut = len(b)
			}
			s := str(b[:cut], 0)
			_, err := packedrtree.Unmarshal(&s.Stream, n, uint16(ns))
			c := "ok"
			if err != nil {
				c = "err"
			}
			tr.emit(M{"e": "loadcut", "at": cut, "c": c})
			rep.count("cut loads", 1)
		}
		s = str(b, 0)
		s.failAt = r.Intn(2)
		s.part = r.Intn(2) == 0
		_, err = packedrtree.Unmarshal(&s.Stream, n, uint16(ns))
		if s.fired && err == nil {
			tr.emit(M{"e": "loadcut", "at": 0, "c": "ok in spite of a failure"})
		}
	}); p != nil {
		fail("load and seek", p)
	}
	if n > 3 {
		rep.sample(M{"references": n, "node_size": ns, "first": logged[:3], "index_bytes": len(b), "searches": searches}, 2)
	}
}

// Index sizes.

func digits(v *big.Int) []int {
	out := []int{}
	b := big.NewInt(4096)
	x := new(big.Int).Set(v)
	for x.Sign() > 0 {
		m := new(big.Int)
		x.DivMod(x, b, m)
		out = append(out, int(m.Int64()))
	}
	return out
}

// modelSize is used only to choose interesting arguments.
func modelSize(n uint64, ns int) *big.Int {
	t := new(big.Int).SetUint64(n)
	k := n
	for {
		k = k/uint64(ns) + map[bool]uint64{true: 1}[k%uint64(ns) > 0]
		t.Add(t, new(big.Int).SetUint64(k))
		if k == 1 {
			return t.Mul(t, big.NewInt(40))
		}
	}
}

func runIndexSize(out, tier string, seed int64) {
	rep := newReport()
	shards, per := 8, 700
	if tier == "thorough" {
		per = 12000
	}
	bits := 32 << (^uint(0) >> 63)
	maxInt := new(big.Int).SetInt64(int64(math.MaxInt))
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*31337 + int64(sh)))
		name := fmt.Sprintf("size%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		sizes := []int{2, 3, 4, 5, 16, 17, 255, 256, 257, 65535}
		for i := 0; i < per; i++ {
			ns := sizes[r.Intn(len(sizes))]
			if r.Intn(3) == 0 {
				ns = 2 + r.Intn(65534)
			}
			var n uint64
			switch r.Intn(7) {
			case 0:
				n = uint64(1 + r.Intn(1000))
			case 1:
				n = uint64(r.Int63()>>uint(r.Intn(62))) + 1
			case 2: // around a power of the node size
				n = 1
				for n < 1<<40 && r.Intn(6) > 0 && n < uint64(math.MaxInt)/uint64(ns) {
					n *= uint64(ns)
				}
				n += uint64(r.Intn(3)) - 1
			case 3:
				n = uint64(math.MaxInt) - uint64(r.Intn(70000))
			case 4: // around the largest representable size
				lo, hi := uint64(1), uint64(math.MaxInt)
				for lo < hi {
					m := lo + (hi-lo+1)/2
					if modelSize(m, ns).Cmp(maxInt) <= 0 {
						lo = m
					} else {
						hi = m - 1
					}
				}
				n = lo + uint64(r.Intn(5)) - 2
			case 5: // sums that wrap around
				x := new(big.Int).Lsh(big.NewInt(1), uint(bits))
				x.Div(x, big.NewInt(40))
				n = x.Uint64() + uint64(r.Intn(100)) - 50
			case 6:
				n = uint64(1) << uint(r.Intn(bits-1))
				n += uint64(r.Intn(3)) - 1
			}
			if n < 1 || n > uint64(math.MaxInt) {
				n = 1
			}
			ev := M{"e": "begin", "n": digits(new(big.Int).SetUint64(n)), "ns": ns, "bits": bits, "size": []int{}}
			call := func(f func() (int, error), kind string) {
				if p := guard(func() {
					sz, err := f()
					if err != nil {
						ev["c"] = "err"
					} else if sz < 0 {
						ev["c"] = "negative"
					} else {
						ev["c"], ev["size"] = "ok", digits(big.NewInt(int64(sz)))
					}
				}); p != nil {
					ev["c"] = fmt.Sprint("panic: ", p)
				}
				rep.count(kind+" "+fmt.Sprint(ev["c"]), 1)
				tr.emit(ev)
			}
			call(func() (int, error) { return packedrtree.Size(int(n), uint16(ns)) }, "Size")
			if i < 1 {
				rep.sample(M{"n": n, "node_size": ns, "answer": ev["c"]}, 2)
			}
			// Loading an index whose size overflows must fail before reading.
			if ev["c"] == "err" {
				s := &SeekStream{}
				s.reset(garbage, 0, -1, false)
				var err1, err2 error
				if p := guard(func() {
					_, err1 = packedrtree.Unmarshal(s, int(n), uint16(ns))
					_, err2 = packedrtree.Seek(s, int(n), uint16(ns), packedrtree.EmptyBox)
				}); p != nil {
					tr.emit(M{"e": "panic", "detail": fmt.Sprint(p)})
				} else if err1 == nil || err2 == nil || s.pos != 0 {
					tr.emit(M{"e": "loaded an index of impossible size"})
				}
			}
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

var _ io.Reader = &Stream{}

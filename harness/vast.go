package main

// Indexes and files of up to 2^50 features, made up while they are read:
// see VastTrace.tla.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
)

// vast is an input: [garbage] header, index, features, garbage.
type vast struct {
	base, idx, data, end int64 // where the file, its index, its features begin, and its end
	cut                  int64 // where the input ends
	hdr                  []byte
	n, ns                int64
	size, start, span    []int64 // per level: nodes, first node, features below a node
	feat                 []byte
	patch, patchX        int    // where a feature has its number and its x-coordinate
	real                 []byte // the file, if it was written by the code under test
	shuffled             bool   // in its index, references have an order of their own
	step, off0           int64
	pos                  int64
	log                  [][2]int64
	taken                int64
	r                    *rand.Rand
	short                bool
}

var errTooMuch = errors.New("read too much")

func (v *vast) node(k int64, b []byte) {
	l := len(v.size) - 1
	for k >= v.start[l]+v.size[l] {
		l--
	}
	j := k - v.start[l]
	s := j * v.span[l]
	t := v.n - 1
	if v.span[l] <= t-s {
		t = s + v.span[l] - 1
	}
	put := func(i int, u uint64) { binary.LittleEndian.PutUint64(b[8*i:], u) }
	put(0, math.Float64bits(float64(2*s)))
	put(1, 0)
	put(2, math.Float64bits(float64(2*t)))
	put(3, 0)
	if l == 0 {
		put(4, uint64(v.off0+s*v.step))
	} else {
		put(4, uint64(v.start[l-1]+j*v.ns))
	}
}

func (v *vast) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if v.pos >= v.cut {
		return 0, io.EOF
	}
	if v.short && len(p) > 1 && v.r.Intn(3) == 0 {
		p = p[:1+v.r.Intn(len(p))]
	}
	if int64(len(p)) > v.cut-v.pos {
		p = p[:v.cut-v.pos]
	}
	if v.taken += int64(len(p)); v.taken > 64<<20 {
		return 0, errTooMuch
	}
	lo := v.pos
	v.fill(lo, p)
	v.pos += int64(len(p))
	if n := len(v.log); n > 0 && v.log[n-1][1] == lo {
		v.log[n-1][1] = v.pos
	} else {
		v.log = append(v.log, [2]int64{lo, v.pos})
	}
	return len(p), nil
}

// fill makes up the bytes from pos.
func (v *vast) fill(pos int64, p []byte) {
	var node [40]byte
	for len(p) > 0 {
		var n int
		switch {
		case pos < v.base || pos >= v.end:
			p[0], n = 0xAA, 1
		case v.real != nil:
			n = copy(p, v.real[pos-v.base:])
		case pos < v.idx:
			n = copy(p, v.hdr[pos-v.base:])
		case pos < v.data:
			k := (pos - v.idx) / 40
			v.node(k, node[:])
			n = copy(p, node[pos-v.idx-40*k:])
		default:
			z := int64(len(v.feat))
			k := (pos - v.data) / z
			o := pos - v.data - k*z
			n = copy(p, v.feature(k)[o:])
		}
		p = p[n:]
		pos += int64(n)
	}
}

// feature makes up the bytes of feature k.
func (v *vast) feature(k int64) []byte {
	binary.LittleEndian.PutUint64(v.feat[v.patch:], uint64(k))
	binary.LittleEndian.PutUint64(v.feat[v.patchX:], math.Float64bits(float64(2*k)))
	return v.feat
}

func (v *vast) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += v.pos
	case io.SeekEnd:
		off += v.cut
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	v.pos = off
	return off, nil
}

func (v *vast) reads() [][2][]int {
	out := [][2][]int{}
	for _, x := range v.log {
		out = append(out, [2][]int{big64(x[0]), big64(x[1])})
	}
	v.log, v.taken = v.log[:0], 0
	return out
}

func big64(x int64) []int { return digits(big.NewInt(x)) }

func runVast(prop, out, tier string, seed int64) {
	rep := newReport()
	shards, per := 8, 60
	if tier == "thorough" {
		per = 1200
	}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*5003 + int64(sh)))
		name := fmt.Sprintf("vast%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			kind, mid, cut := "file", i%3 == 1, false
			switch prop {
			case "P05":
				mid = true
				if i%2 == 0 {
					kind = "write"
				}
			case "P07":
				mid = true
			case "P01":
				kind, mid = "tree", true
			case "P02":
				kind, mid = "index", false
			case "P03":
				kind, mid, cut = "tree", true, r.Intn(2) == 0
			case "P10":
				cut = r.Intn(4) > 0
				mid = mid || r.Intn(2) == 0
			case "P11":
				mid, cut = true, r.Intn(3) == 0
			case "P19":
				if r.Intn(3) == 0 {
					kind, mid = "index", false
				}
			}
			vastSession(rep, tr, r, prop, kind, mid, cut, i)
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

// vastFile chooses numbers of features and node sizes whose index has a
// size that fits an int; or, if mid, that fits into memory.
func vastFile(r *rand.Rand, file, mid bool, i int) *vast {
	bits := 32 << (^uint(0) >> 63)
	for {
		v := &vast{r: r, ns: int64([]int{2, 3, 4, 16, 16, 17, 255, 256, 4096, 65535}[r.Intn(10)])}
		switch r.Intn(4) {
		case 0: // around a power of the node size
			v.n = 1
			for v.n < 1<<34 && r.Intn(8) > 0 {
				v.n *= v.ns
			}
			v.n += int64(r.Intn(3)) - 1
		case 1:
			v.n = int64(1)<<uint(10+r.Intn(41)) + int64(r.Intn(5)) - 2
		case 2: // near the largest index in a program with 32-bit int
			v.n = math.MaxInt32/40 - int64(r.Intn(100))
			v.n -= v.n / v.ns
		default:
			v.n = r.Int63()>>uint(13+r.Intn(50)) + 1
		}
		if mid {
			v.n = 1 + r.Int63n(3000)
			if i%10 == 1 || r.Intn(20) == 0 {
				v.n = 1 + r.Int63n(200000)
			} else if i%10 == 2 { // around what fills some number of steps
				v.n = int64(1+r.Intn(3))<<uint(10+r.Intn(7)) + int64(r.Intn(5)) - 2
			}
		}
		if v.n < 1 || v.n > 1<<50 {
			continue
		}
		m := modelSize(uint64(v.n), int(v.ns))
		if m.BitLen() >= bits {
			continue
		}
		v.base = int64(r.Intn(3)) * int64(r.Intn(1000))
		if r.Intn(3) == 0 {
			v.base = r.Int63() >> uint(2+r.Intn(40))
		}
		v.off0, v.step = r.Int63()>>uint(1+r.Intn(60)), r.Int63n(100)
		if file {
			v.hdr = append(append([]byte(nil), magicBytes...), EncodeHeader(HeaderSpec{Name: "vast", Count: uint64(v.n), NodeSize: uint16(v.ns)})...)
			props := []byte("thenumbr")
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], math.Float64bits(-1234.5))
			v.feat = EncodeFeature(FeatSpec{Geom: &Geom{XY: []float64{-1234.5, 0}}, Props: props})
			v.patch, v.patchX = bytes.Index(v.feat, props), bytes.Index(v.feat, x[:])
			v.off0, v.step = 0, int64(len(v.feat))
		}
		v.idx = v.base + int64(len(v.hdr))
		v.data = v.idx + m.Int64()
		v.end = v.data + v.n*int64(len(v.feat))
		if v.data < v.idx || v.end < v.data || v.end > math.MaxInt64-1000 || v.step > 0 && v.off0 > math.MaxInt64-v.n*v.step {
			continue
		}
		if bits == 32 && (v.n > math.MaxInt32 || v.base > 1<<40) {
			continue
		}
		k, w := v.n, int64(1)
		for {
			v.size, v.span = append(v.size, k), append(v.span, w)
			if k == 1 && len(v.size) > 1 {
				break
			}
			k = (k + v.ns - 1) / v.ns
			if w > math.MaxInt64/v.ns {
				w = math.MaxInt64
			} else {
				w *= v.ns
			}
		}
		v.start = make([]int64, len(v.size))
		for l := len(v.size) - 2; l >= 0; l-- {
			v.start[l] = v.start[l+1] + v.size[l+1]
		}
		v.pos, v.short, v.cut = v.base, r.Intn(2) == 0, v.end+64
		return v
	}
}

// query gives a query around some feature, with its limits.
func (v *vast) query() (packedrtree.Box, M) {
	r := v.r
	var i int64
	switch r.Intn(5) {
	case 0: // where a node ends
		l := r.Intn(len(v.size) - 1)
		i = v.span[l] * r.Int63n(v.size[l])
	case 1:
		i = v.n - 1 - r.Int63n(10)
	case 2:
		i = r.Int63n(30)
	case 3: // powers of two
		i = int64(1)<<uint(r.Intn(51)) + r.Int63n(3) - 1
	default:
		i = r.Int63n(v.n)
	}
	a := 2*i - r.Int63n(5)
	b := a + r.Int63n(6)
	if r.Intn(3) == 0 {
		b = a + r.Int63n(400)
	}
	if a < 0 {
		a = 0
	}
	if b < a {
		b = a
	}
	miss := r.Intn(15) == 0
	q := packedrtree.Box{XMin: float64(a), XMax: float64(b), YMin: -1, YMax: float64(r.Intn(2))}
	if miss {
		q.YMin = 0.5
		q.YMax = 1
	}
	return q, M{"a": big64(a), "b": big64(b), "miss": miss}
}

// cutAt cuts the input after the header, mostly where something ends or a
// round number of bytes or nodes has been read.
func (v *vast) cutAt(r *rand.Rand) {
	z := int64(len(v.feat))
	at := func(from, to, step int64) int64 {
		if k := (to - from) / step; k > 0 {
			from += step * r.Int63n(k+1)
		}
		return from
	}
	steps := []int64{1, 40, 40 * v.ns, 4096, 8096, 1 << 16, 40 << 10, 40 << 12, 40 << 14, 40 << 16, 1 << 20}
	switch x := r.Intn(4); {
	case x == 0 && z > 0:
		v.cut = at(v.data, v.end, z) + int64(r.Intn(9)) - 4
	case x == 1 && z > 0:
		k := (v.end - v.data) / z
		if k > 60 {
			k = 60
		}
		v.cut = v.data + z*r.Int63n(k) + r.Int63n(z)
	default:
		step := steps[r.Intn(len(steps))]
		if v.data-v.idx > 40<<16 && r.Intn(2) == 0 {
			step = 40 << 16
		}
		v.cut = at(v.idx, v.data, step)
		if r.Intn(3) == 0 {
			v.cut += int64(r.Intn(3)) - 1
		}
	}
	if v.cut < v.idx {
		v.cut = v.idx
	}
	if v.cut >= v.end {
		v.cut = v.end - 1
	}
}

func vastSession(rep *Report, tr *Trace, r *rand.Rand, prop, kind string, mid, cut bool, i int) {
	v := vastFile(r, kind == "file" || kind == "write", mid, i)
	if cut {
		v.cutAt(r)
	}
	seek := kind == "index" || !mid || r.Intn(3) > 0
	tr.emit(M{"e": "begin", "n": big64(v.n), "ns": int(v.ns), "top": big64(v.n - 1), "at": big64(v.idx), "size": len(v.feat), "strict": prop == "P19",
		"cut": cut, "end": big64(v.cut), "seek": seek})
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	rep.count(fmt.Sprintf("2^%d features", len(fmt.Sprintf("%b", v.n))-1), 1)
	rep.sample(M{"n": v.n, "node size": v.ns, "at": v.base, "kind": kind, "cut": cut}, 3)
	var last M
	if p := guard(func() {
		switch kind {
		case "file":
			v.fileSession(rep, tr, seek, mid, &last)
		case "write":
			if v.writeSession(rep, tr, &last) {
				v.fileSession(rep, tr, seek, mid, &last)
			}
		case "tree":
			v.treeSession(rep, tr, prop, &last)
		default:
			v.seekSession(rep, tr, &last)
		}
	}); p != nil {
		tr.emit(M{"e": "panic", "detail": fmt.Sprint(p), "call": fmt.Sprint(last)})
	}
}

// same is an output which compares what it gets with the index.
type same struct {
	v   *vast
	pos int64
	buf []byte
	bad bool
}

func (s *same) Write(p []byte) (int, error) {
	if cap(s.buf) < len(p) {
		s.buf = make([]byte, len(p))
	}
	b := s.buf[:len(p)]
	s.v.fill(s.pos, b)
	s.bad = s.bad || !bytes.Equal(p, b)
	s.pos += int64(len(p))
	return len(p), nil
}

// tree describes a tree that was built or loaded.
func (v *vast) tree(ev M, t *packedrtree.PackedRTree) {
	b := t.Bounds()
	ev["refs"], ev["ns"] = big64(int64(t.NumRefs())), int(t.NodeSize())
	bs := [][]int{}
	for _, f := range []float64{b.XMin, b.YMin, b.XMax, b.YMax} {
		if f < 0 || f > 1<<60 || f != math.Floor(f) {
			f = 1 << 61
		}
		bs = append(bs, big64(int64(f)))
	}
	w := &same{v: v, pos: v.idx}
	n, err := t.Marshal(w)
	ev["bounds"], ev["same"] = bs, err == nil && !w.bad && w.pos == v.data && int64(n) == v.data-v.idx
}

// hits is a search in memory.
func (v *vast) hits(rep *Report, tr *Trace, t *packedrtree.PackedRTree, last *M) {
	q, jq := v.query()
	ev := M{"e": "hits", "q": jq}
	*last = ev
	rs := t.Search(q)
	rep.count("searches", 1)
	if v.shuffled {
		sort.Sort(rs)
		v.emit(tr, ev, v.results(rs), nil)
		return
	}
	v.emit(tr, ev, v.results(byIndex(rs)), nil)
}

func (v *vast) results(rs packedrtree.Results) []int64 {
	ids := make([]int64, len(rs))
	for j, x := range rs {
		ids[j] = int64(x.RefIndex)
		if v.shuffled {
			ids[j] = x.Offset / v.step
		}
		if x.Offset != v.off0+v.step*ids[j] {
			ids[j] = -1
		}
	}
	return ids
}

// writeSession writes the file, for what follows to read it.
func (v *vast) writeSession(rep *Report, tr *Trace, last *M) bool {
	mode := []string{"index", "indexdata", "indexdataptr"}[v.r.Intn(3)]
	ev := M{"e": "write", "mode": mode, "n": v.n}
	*last = ev
	rep.count("write "+mode, 1)
	v.pos, v.log, v.taken = v.base, v.log[:0], 0
	feats := make([]flat.Feature, v.n)
	ptrs := make([]*flat.Feature, v.n)
	for i := range feats {
		b := append([]byte(nil), v.feature(int64(i))...)
		feats[i].Init(b, 4+flatbuffers.GetUOffsetT(b[4:]))
		ptrs[i] = &feats[i]
	}
	var buf bytes.Buffer
	var sum int64
	w := flatgeobuf.NewFileWriter(&buf)
	err := func() error {
		add := func(n int, err error) error {
			sum += int64(n)
			return err
		}
		hdr := flat.GetSizePrefixedRootAsHeader(v.hdr[len(magicBytes):], 0)
		if err := add(w.Header(hdr)); err != nil {
			return err
		}
		switch mode {
		case "indexdata":
			if err := add(w.IndexData(feats)); err != nil {
				return err
			}
		case "indexdataptr":
			if err := add(w.IndexDataPtr(ptrs)); err != nil {
				return err
			}
		default:
			refs := make([]packedrtree.Ref, v.n)
			for i := range refs {
				x := float64(2 * i)
				refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, XMax: x}, Offset: v.step * int64(i)}
			}
			t, err := packedrtree.New(refs, uint16(v.ns))
			if err != nil {
				return err
			}
			if err := add(w.Index(t)); err != nil {
				return err
			}
			for _, f := range ptrs {
				if err := add(w.Data(f)); err != nil {
					return err
				}
			}
		}
		return w.Close()
	}()
	out := buf.Bytes()
	whole := make([]byte, v.end-v.base)
	v.fill(v.base, whole)
	i, d := v.idx-v.base, v.data-v.base
	ok := len(out) == len(whole)
	// With IndexData, the order of the leaves is the library's.
	ev["same"] = ok && bytes.Equal(out[:i], whole[:i]) && bytes.Equal(out[d:], whole[d:]) && (mode != "index" || bytes.Equal(out, whole))
	v.pos = v.base + sum
	v.emit(tr, ev, nil, err)
	if ok {
		v.real, v.shuffled = out, mode != "index"
	}
	v.pos = v.base
	return ok && err == nil
}

func (v *vast) treeSession(rep *Report, tr *Trace, prop string, last *M) {
	if v.cut > v.data {
		refs := make([]packedrtree.Ref, v.n)
		for i := range refs {
			x := float64(2 * i)
			refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, XMax: x}, Offset: v.off0 + v.step*int64(i)}
		}
		ev := M{"e": "build"}
		*last = ev
		t, err := packedrtree.New(refs, uint16(v.ns))
		if err == nil {
			v.tree(ev, t)
		}
		v.emit(tr, ev, nil, err)
		for i := 0; i < 5; i++ {
			v.hits(rep, tr, t, last)
		}
		if prop == "P01" {
			return
		}
	}
	v.pos = v.idx
	ev := M{"e": "load"}
	*last = ev
	t, err := packedrtree.Unmarshal(onlyReader{v}, int(v.n), uint16(v.ns))
	if err == nil {
		v.tree(ev, t)
	}
	v.emit(tr, ev, nil, err)
	if err != nil {
		return
	}
	for i := 0; i < 5; i++ {
		v.hits(rep, tr, t, last)
	}
}

// emit records the event of a call that gave the features ids.
func (v *vast) emit(tr *Trace, ev M, ids []int64, err error) bool {
	if errors.Is(err, errTooMuch) {
		tr.emit(M{"e": "toomuch", "call": fmt.Sprint(ev)})
		return false
	}
	ev["c"] = "ok"
	if errors.Is(err, io.EOF) && ev["e"] == "data" {
		ev["c"] = "eof"
	} else if err != nil {
		ev["c"], ev["detail"] = "err", err.Error()
	}
	ev["count"], ev["first"], ev["last"] = big64(int64(len(ids))), []int{}, []int{}
	if len(ids) > 0 {
		ev["first"], ev["last"] = big64(ids[0]), big64(ids[len(ids)-1])
		for i, x := range ids {
			if x != ids[0]+int64(i) {
				ev["c"] = fmt.Sprintf("result %d is %d, %d of the first", i, x, ids[0])
			}
			if x < 0 {
				ev["c"], ev["first"], ev["last"] = "bad result", []int{}, []int{}
			}
		}
	}
	ev["pos"], ev["reads"] = big64(v.pos), v.reads()
	tr.emit(ev)
	return true
}

func (v *vast) seekSession(rep *Report, tr *Trace, last *M) {
	for i := 2 + v.r.Intn(4); i > 0; i-- {
		q, jq := v.query()
		ev := M{"e": "seek", "q": jq}
		*last = ev
		v.pos = v.idx
		rs, err := packedrtree.Seek(v, int(v.n), uint16(v.ns), q)
		rep.count("searches", 1)
		if !v.emit(tr, ev, v.results(rs), err) {
			return
		}
	}
}

func (v *vast) fileSession(rep *Report, tr *Trace, seek, mid bool, last *M) {
	var rd *flatgeobuf.FileReader
	if seek {
		rd = flatgeobuf.NewFileReader(v)
	} else {
		rd = flatgeobuf.NewFileReader(onlyReader{v})
	}
	if _, err := rd.Header(); err != nil {
		tr.emit(M{"e": "header", "detail": err.Error()})
		return
	}
	v.reads()
	ids := func(fs []flat.Feature) []int64 {
		out := make([]int64, len(fs))
		for i := range fs {
			b := fs[i].Table().Bytes
			out[i] = -1
			if len(b) == len(v.feat) {
				k := binary.LittleEndian.Uint64(b[v.patch:])
				if string(b) == string(v.feature(int64(k))) {
					out[i] = int64(k)
				}
			}
		}
		return out
	}
	data := func() bool {
		for j := 1 + v.r.Intn(3); j > 0; j-- {
			k := v.r.Intn(20)
			if mid && v.r.Intn(5) == 0 {
				k = v.r.Intn(3000)
				if v.r.Intn(4) == 0 {
					k = v.r.Intn(250000)
				}
			}
			ev := M{"e": "data", "k": k, "rem": false}
			*last = ev
			rep.count("data", 1)
			var fs []flat.Feature
			var err error
			if mid && v.r.Intn(6) == 0 {
				ev["k"], ev["rem"] = 1, true
				fs, err = rd.DataRem()
			} else {
				fs = make([]flat.Feature, k)
				var n int
				n, err = rd.Data(fs)
				fs = fs[:n]
			}
			if !v.emit(tr, ev, ids(fs), err) || ev["c"] == "err" {
				return false
			}
		}
		return true
	}
	for i := 1 + v.r.Intn(4); i > 0; i-- {
		switch x := v.r.Intn(6); {
		case x < 3:
			q, jq := v.query()
			ev := M{"e": "search", "q": jq}
			*last = ev
			fs, err := rd.IndexSearch(q)
			rep.count("searches", 1)
			if !v.emit(tr, ev, ids(fs), err) || ev["c"] == "err" {
				return
			}
		case x == 3 && mid:
			ev := M{"e": "load"}
			*last = ev
			t, err := rd.Index()
			rep.count("loads", 1)
			if err == nil {
				v.tree(ev, t)
			}
			if !v.emit(tr, ev, nil, err) || ev["c"] == "err" {
				return
			}
			for j := v.r.Intn(3); j > 0; j-- {
				v.hits(rep, tr, t, last)
			}
			if v.r.Intn(2) == 0 && !data() {
				return
			}
		default:
			if !data() {
				return
			}
		}
		ev := M{"e": "rewind"}
		*last = ev
		err := rd.Rewind()
		if !v.emit(tr, ev, nil, err) || err != nil {
			return
		}
	}
}

package main

// Damaged indexes and files: rows exported from HostileTreeMC and
// HostileDamage, every change of one byte, and random damage.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// watch reports what a worker is doing when it takes too long.
type watch struct {
	mu    sync.Mutex
	since time.Time
	what  func() string
}

func (w *watch) enter(what func() string) {
	w.mu.Lock()
	w.since, w.what = time.Now(), what
	w.mu.Unlock()
}

func (w *watch) leave() {
	w.mu.Lock()
	w.what = nil
	w.mu.Unlock()
}

// watchAll ends the program with a violation when one worker takes more than
// limit for one piece of work.
func watchAll(rep *Report, out string, n int, limit time.Duration) []*watch {
	ws := make([]*watch, n)
	for i := range ws {
		ws[i] = &watch{}
	}
	go func() {
		for {
			time.Sleep(time.Second)
			for _, w := range ws {
				w.mu.Lock()
				if w.what != nil && time.Since(w.since) > limit {
					rep.violate(M{"problem": fmt.Sprintf("no answer after %v: %s", limit, w.what())})
					rep.Traces = nil
					rep.write(out)
					os.Exit(0)
				}
				w.mu.Unlock()
			}
		}
	}()
	return ws
}

const watchLimit = 40 * time.Second

// hostileInt maps the numbers of the model to those of an index.
func hostileInt(v int64) int64 {
	switch {
	case v >= 2000000000:
		return math.MaxInt64
	case v <= -2000000000:
		return math.MinInt64
	case v >= 1000000000:
		return v - 1000000000 + 1<<32
	}
	return v
}

type hostileRow struct {
	N     int     `json:"n"`
	NS    int     `json:"ns"`
	Ptr   []int64 `json:"ptr"`
	Hit   []bool  `json:"hit"`
	Sound bool    `json:"sound"`
	// What a search for hitBox has to answer.
	Bad     bool  `json:"bad"`
	Found   []int `json:"found"`
	Refused bool  `json:"refused"`
}

var hitBox, missBox = packedrtree.Box{XMax: 1, YMax: 1}, packedrtree.Box{XMin: 5, YMin: 5, XMax: 6, YMax: 6}

func encodeNode(b []byte, x packedrtree.Box, off int64) []byte {
	for _, v := range []float64{x.XMin, x.YMin, x.XMax, x.YMax} {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
	}
	return binary.LittleEndian.AppendUint64(b, uint64(off))
}

// Boxes that meet hitBox, and boxes that don't.
var hitBoxes = []packedrtree.Box{hitBox, hitBox, {XMin: 1, YMin: 1, XMax: 9, YMax: 9}, {XMin: 0.5, YMin: 0.5, XMax: 0.5, YMax: 0.5},
	{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}, {XMin: -5, YMin: 0, XMax: 0, YMax: 0}}
var missBoxes = []packedrtree.Box{missBox, missBox, packedrtree.EmptyBox, packedrtree.EmptyBox, {XMin: 1.5, YMin: 0, XMax: 1.5, YMax: 0},
	{XMin: 0, YMin: -3, XMax: 1, YMax: -2}, {XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(1), YMax: math.Inf(1)}}

func (h *hostileRow) encode(r *rand.Rand) (b []byte) {
	plain := r.Intn(2) == 0
	for i, hit := range h.Hit {
		x := missBox
		if hit {
			x = hitBox
		}
		if !plain && hit {
			x = hitBoxes[r.Intn(len(hitBoxes))]
		} else if !plain {
			x = missBoxes[r.Intn(len(missBoxes))]
		}
		off := int64(1000 + i)
		if i < len(h.Ptr) {
			off = hostileInt(h.Ptr[i])
		}
		b = encodeNode(b, x, off)
	}
	return
}

// hostileIndex loads and searches an index of any bytes.
// If h isn't nil, it says what the answers have to be.
func hostileIndex(b []byte, pre, numRefs int, ns uint16, h *hostileRow, r *rand.Rand) (problem string) {
	sound := h != nil && h.Sound
	compare := func(rs packedrtree.Results) {
		got := map[int]bool{}
		for _, x := range rs {
			got[x.RefIndex] = true
			if want := int64(1000 + len(h.Ptr) + x.RefIndex); x.Offset != want {
				panic(fmt.Sprintf("answered %v, but the offset is %d", x, want))
			}
		}
		ok := len(got) == len(h.Found)
		for _, i := range h.Found {
			ok = ok && got[i]
		}
		if !ok {
			panic(fmt.Sprintf("answered %v, but the matching leaves are %v", rs, h.Found))
		}
	}
	buf := append(make([]byte, pre), b...)
	st := &SeekStream{}
	st.rnd = r
	frag := r.Intn(numFrag)
	qs := []packedrtree.Box{hitBox, {XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}, {XMin: 5.5, YMin: 5.5, XMax: 5.5, YMax: 5.5}}
	what := ""
	p := guard(func() {
		st.reset(buf, frag, -1, false)
		st.pos, st.cap = int64(pre), 2000+64*len(buf)
		what = "Unmarshal"
		var rd io.Reader = st
		if r.Intn(2) == 0 {
			rd = onlyReader{&st.Stream}
		}
		t, err := packedrtree.Unmarshal(rd, numRefs, ns)
		if sound && err != nil {
			panic(fmt.Sprintf("refuses a good index: %v", err))
		}
		if h != nil && (err != nil) != h.Refused {
			panic(fmt.Sprintf("returns %v, but pointers leading out of the level below: %v", err, h.Refused))
		}
		if err == nil {
			for _, q := range qs {
				what = fmt.Sprintf("Search(%v) after Unmarshal", q)
				if rs := t.Search(q); h != nil && q == hitBox {
					compare(rs)
				}
			}
			what = "Bounds, String and Marshal after Unmarshal"
			t.Bounds()
			_ = t.String()
			var w bytes.Buffer
			if _, err := t.Marshal(&w); err != nil {
				panic(fmt.Sprint("Marshal: ", err))
			}
		}
		for _, q := range qs {
			what = fmt.Sprintf("Seek(%v)", q)
			st.reset(buf, frag, -1, false)
			st.pos = int64(pre)
			rs, err := packedrtree.Seek(st, numRefs, ns, q)
			if err != nil && sound {
				panic(fmt.Sprintf("refuses a good index: %v", err))
			}
			if h != nil && q == hitBox {
				if (err != nil) != h.Bad {
					panic(fmt.Sprintf("returns %v and %v, but reaches a pointer leading out of the level below: %v", rs, err, h.Bad))
				} else if err == nil {
					compare(rs)
				}
			}
		}
	})
	if p != nil {
		return fmt.Sprintf("%s with %d references and node size %d (index after %d bytes) of % x: %v", what, numRefs, ns, pre, b, p)
	}
	return ""
}

func runHostileTree(edges, out, tier string, seed int64) {
	rep := newReport()
	var rows []hostileRow
	readRows(edges, func(b []byte) {
		var h hostileRow
		if err := json.Unmarshal(b, &h); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, h)
	})
	ws := watchAll(rep, out, 8, watchLimit)
	parallel(8, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*31 + int64(k)))
		one := func(b []byte, pre, n int, ns uint16, h *hostileRow) {
			ws[k].enter(func() string { return fmt.Sprintf("%d references, node size %d, index % x", n, ns, b) })
			if p := hostileIndex(b, pre, n, ns, h, r); p != "" {
				rep.violate(M{"problem": p})
			}
			ws[k].leave()
			rep.eval.Add(1)
		}
		for i := k; i < len(rows) && !rep.stop(); i += 8 {
			h := &rows[i]
			one(h.encode(r), r.Intn(3)*r.Intn(50), h.N, uint16(h.NS), h)
		}
		// Every byte of good indexes changed to every value.
		for i, sh := range [][2]int{{1, 16}, {2, 2}, {3, 2}, {5, 2}, {5, 3}, {20, 16}} {
			good := &hostileRow{N: sh[0], NS: sh[1]}
			var leaves []Leaf
			for j := 0; j < sh[0]; j++ {
				leaves = append(leaves, Leaf{Bx{0, 0, float64(j), 1}, int64(j * 100)})
			}
			b := EncodeIndex(leaves, sh[1])
			for j := range b {
				for v := 1; v < 256; v++ {
					if (j*255+v+i)%8 != k || rep.stop() || tier == "quick" && sh[0] > 5 && v&(v-1) != 0 && v != 255 {
						continue
					}
					c := append([]byte(nil), b...)
					c[j] ^= byte(v)
					one(c, 0, good.N, uint16(good.NS), nil)
				}
			}
		}
		// Bytes and claims that have nothing to do with each other.
		n := 3000
		if tier == "thorough" {
			n = 60000
		}
		for i := 0; i < n && !rep.stop(); i++ {
			b := make([]byte, r.Intn(1+r.Intn(900)))
			r.Read(b)
			if r.Intn(2) == 0 { // small numbers in the right places
				b = b[:0]
				for j := r.Intn(30); j >= 0; j-- {
					x := hitBox
					if r.Intn(4) == 0 {
						x = missBox
					}
					b = encodeNode(b, x, int64(r.Intn(40)-2))
				}
				b = b[:len(b)-r.Intn(3)*r.Intn(20)]
			}
			claim := []int{1, 2, 3, 4, 7, 16, 17, 100, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 24, math.MaxInt32/40 - 5, math.MaxInt32 / 40, math.MaxInt32, math.MaxInt/41 - 100, math.MaxInt / 42, math.MaxInt / 40, math.MaxInt}[r.Intn(19)]
			one(b, r.Intn(5), claim, []uint16{2, 2, 2, 3, 4, 16, 16, 255, 65535}[r.Intn(9)], nil)
		}
	})
	rep.count("indexes with hostile pointers from the model", int64(len(rows)))
	rep.write(out)
}

func readRows(path string, fn func(b []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		fn(sc.Bytes())
	}
}

// protocol is the exported relation of what may be answered when.
type protocol map[[3]string]string

func loadProtocol(path string) protocol {
	p := protocol{}
	readRows(path, func(b []byte) {
		var e struct{ F, Op, A, T string }
		if err := json.Unmarshal(b, &e); err != nil {
			die("edge: %v", err)
		}
		p[[3]string{e.F, e.Op, e.A}] = e.T
	})
	return p
}

// hop is one call of a session.
type hop struct {
	op   string
	room int
	q    packedrtree.Box
}

func (h hop) String() string {
	switch h.op {
	case "data":
		return fmt.Sprintf("Data(%d)", h.room)
	case "search":
		return fmt.Sprintf("IndexSearch(%v)", h.q)
	}
	return h.op
}

var everything = packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}
var hops = []hop{{op: "header"}, {op: "index"}, {op: "search", q: everything}, {op: "search", q: packedrtree.Box{XMin: 0.5, YMin: 0.5, XMax: 1.5, YMax: 9}},
	{op: "data", room: 0}, {op: "data", room: 2}, {op: "data", room: 9}, {op: "datarem"}, {op: "rewind"}, {op: "close"}}

// answer is what a call did.
type answer struct {
	a              string
	given          int
	biggest, bytes int
}

func feats(fs []flat.Feature, n int, a *answer) {
	a.given = n
	for i := 0; i < n && i < len(fs); i++ {
		k := len(fs[i].Table().Bytes)
		a.bytes += k
		if k > a.biggest {
			a.biggest = k
		}
	}
}

func (h hop) do(fr *flatgeobuf.FileReader) (a answer) {
	var err error
	switch h.op {
	case "header":
		var hd *flat.Header
		hd, err = fr.Header()
		if err == nil && hd == nil {
			panic("neither a header nor an error")
		}
	case "index":
		var t *packedrtree.PackedRTree
		t, err = fr.Index()
		if t != nil {
			t.Search(everything)
		}
	case "search":
		var fs []flat.Feature
		fs, err = fr.IndexSearch(h.q)
		feats(fs, len(fs), &a)
	case "data":
		p := make([]flat.Feature, h.room)
		var n int
		n, err = fr.Data(p)
		feats(p, n, &a)
	case "datarem":
		var fs []flat.Feature
		fs, err = fr.DataRem()
		feats(fs, len(fs), &a)
	case "rewind":
		err = fr.Rewind()
	case "close":
		err = fr.Close()
	}
	switch {
	case err == nil:
		a.a = "val"
	case errors.Is(err, flatgeobuf.ErrClosed):
		a.a = "closed"
	case err == io.EOF && h.op == "data":
		a.a = "end"
	case a.given > 0:
		a.a = "some"
	default:
		a.a = "err"
	}
	return
}

// hostileSession runs calls on a file and checks the answers with the
// exported protocol, or records them.
func hostileSession(b []byte, seekable bool, frag int, hist []hop, pr protocol, tr *Trace, r *rand.Rand) (problem string) {
	st := &SeekStream{}
	st.rnd = r
	st.reset(b, frag, -1, r.Intn(8) == 0)
	st.cap = 3000 + 100*len(b)
	var rd io.Reader = st
	if !seekable {
		rd = struct {
			onlyReader
			io.Closer
		}{onlyReader{&st.Stream}, &st.Stream}
	}
	at := 0
	if tr != nil {
		tr.emit(M{"e": "begin", "size": len(b)})
	}
	p := guard(func() {
		fr := flatgeobuf.NewFileReader(rd)
		phase := "fresh"
		for i, h := range hist {
			at = i
			st.ops = 0
			a := h.do(fr)
			if tr != nil {
				tr.emit(M{"e": "call", "op": h.op, "room": h.room, "a": a.a, "given": a.given, "biggest": a.biggest, "bytes": a.bytes})
				continue
			}
			next, ok := pr[[3]string{phase, h.op, a.a}]
			if !ok {
				panic(fmt.Sprintf("answers %q (%d features), which is not allowed in phase %q", a.a, a.given, phase))
			}
			phase = next
			if a.given < 0 || h.op == "data" && (a.given > h.room || a.a == "val" && a.given != h.room) {
				panic(fmt.Sprintf("gives %d features for %d", a.given, h.room))
			}
		}
	})
	if p != nil {
		return fmt.Sprintf("call %d of %v (seekable: %v, delivery: %s) on the file % x: %v", at+1, hist, seekable, fragNames[frag], b, p)
	}
	return ""
}

func hostileBases() []*File {
	pt := func(x, y float64) *Geom { return &Geom{XY: []float64{x, y}, Type: 1} }
	tri := &Geom{Type: 3, XY: []float64{0, 0, 2, 0, 1, 2}}
	multi := &Geom{Type: 6, Parts: []*Geom{tri, pt(3, 3)}}
	cols := schemaCols([]int{tInt, tString})
	fs := []FeatSpec{{Geom: pt(0, 0)}, {Geom: pt(1, 1), Props: []byte{0, 0, 1, 0, 0, 0}}, {Geom: tri}, {Geom: multi, Props: []byte{1, 0, 2, 0, 0, 0, 'h', 'i'}, Columns: cols}}
	var many []FeatSpec
	for i := 0; i < 20; i++ {
		many = append(many, FeatSpec{Geom: pt(float64(i), 1)})
	}
	return []*File{
		BuildFile(HeaderSpec{Name: "a", Count: 4, NodeSize: 2, Columns: cols}, fs, []int{2, 0, 3, 1}),
		BuildFile(HeaderSpec{Count: 0, NodeSize: 16}, fs[:3], nil),
		BuildFile(HeaderSpec{Count: 3, NodeSize: 0}, fs[:3], nil),
		BuildFile(HeaderSpec{Count: 20, NodeSize: 16}, many, nil),
		BuildFile(HeaderSpec{Count: 1, NodeSize: 16}, fs[:1], nil),
	}
}

// place gives the position and width of a field of a file, or width 0.
func (f *File) place(name string) (pos, width int) {
	nodes := len(f.Idx) / 40
	feat := func(i, at, w int) (int, int) {
		if i < 0 || i >= len(f.Feats) {
			return 0, 0
		}
		return f.FeatEnd[i] - len(f.Feats[i]) + at, w
	}
	node := func(i int) (int, int) {
		if i < 0 || i >= nodes {
			return 0, 0
		}
		return f.HdrEnd + i*40 + 32, 8
	}
	inner := nodes - len(f.Feats)
	slot := func(k, w int) (int, int) {
		if p := fieldPos(f.Hdr, k); p >= 0 {
			return 8 + p, w
		}
		return 0, 0
	}
	switch name {
	case "magic3":
		return 3, 1
	case "magic7":
		return 7, 1
	case "hdrlen":
		return 8, 4
	case "hdrroot":
		return 12, 4
	case "hdrvt":
		return 8 + int(rootPos(f.Hdr)), 4
	case "count":
		return slot(8, 8)
	case "nodesize":
		return slot(9, 2)
	case "box0":
		if nodes > 0 {
			return f.HdrEnd, 8
		}
	case "ptr0", "ptr1", "ptr2":
		if i := int(name[3] - '0'); i < inner {
			return node(i)
		}
	case "leaf0", "leaf1", "leaf2", "leaf3":
		return node(inner + int(name[4]-'0'))
	case "len0", "len1", "len3":
		return feat(int(name[3]-'0'), 0, 4)
	case "root0", "root1":
		return feat(int(name[4]-'0'), 4, 4)
	case "vt0":
		if len(f.Feats) > 0 {
			return feat(0, int(rootPos(f.Feats[0])), 4)
		}
	}
	return 0, 0
}

type damage struct{ F, K string }

// apply damages a copy of a file; ok is false when it lacks the field.
func (f *File) apply(ds []damage) (b []byte, ok bool) {
	b = append([]byte(nil), f.Bytes...)
	cut := -1
	for _, d := range ds {
		if d.F == "cut" {
			sections := []int{0, 8, f.HdrEnd, f.IdxEnd, len(b)}
			for _, e := range f.FeatEnd {
				sections = append(sections, e)
			}
			k := 0
			for i, x := range []string{"zero", "one", "two", "three", "plus", "minus", "double", "half", "next", "prev"} {
				if x == d.K {
					k = i
				}
			}
			cut = sections[k%len(sections)] + []int{0, 1, -1, 4, 5}[len(d.K)%5]
			continue
		}
		pos, w := f.place(d.F)
		if w == 0 {
			return nil, false
		}
		var cur uint64
		for i := w - 1; i >= 0; i-- {
			cur = cur<<8 | uint64(b[pos+i])
		}
		v := cur
		switch d.K {
		case "zero":
			v = 0
		case "one":
			v = 1
		case "two":
			v = 2
		case "three":
			v = 3
		case "plus":
			v++
		case "minus":
			v--
		case "double":
			v *= 2
		case "half":
			v /= 2
		case "max8":
			v = 255
		case "max16":
			v = 65535
		case "max31":
			v = 1<<31 - 1
		case "min31":
			v = 1 << 31
		case "max32":
			v = 1<<32 - 1
		case "max32m3":
			v = 1<<32 - 4
		case "wrap32":
			v = cur + 1<<32
		case "max63":
			v = 1<<63 - 1
		case "min63":
			v = 1 << 63
		case "max64":
			v = 1<<64 - 1
		case "max64m":
			v = -cur
		case "size":
			v = uint64(len(b))
		case "next":
			v = cur + 4
		case "prev":
			v = cur - 4
		}
		for i := 0; i < w; i++ {
			b[pos+i] = byte(v)
			v >>= 8
		}
	}
	if cut >= 0 && cut < len(b) {
		b = b[:cut]
	}
	return b, true
}

// Sessions tried on every damaged file.
func fixedSessions() [][]hop {
	h := func(i ...int) (s []hop) {
		for _, x := range i {
			s = append(s, hops[x])
		}
		return
	}
	return [][]hop{
		h(0, 7, 7, 8, 7, 9, 7), h(0, 2, 6, 8, 3, 9), h(0, 3, 8, 2, 8, 1, 6, 9, 0), h(0, 1, 7, 8, 2, 8, 5, 5, 5), h(0, 1, 8, 3, 5, 1, 8, 7),
		h(0, 5, 8, 1, 5, 5, 6), h(0, 6, 4, 2, 8, 6, 7), h(7, 2, 0, 0, 4, 3, 7, 9, 8),
	}
}

func runHostileFile(edges, damages, out, tier string, seed int64) {
	rep := newReport()
	pr := loadProtocol(edges)
	var ds [][]damage
	readRows(damages, func(b []byte) {
		var row struct{ D []damage }
		if err := json.Unmarshal(b, &row); err != nil {
			die("row: %v", err)
		}
		ds = append(ds, row.D)
	})
	bases := hostileBases()
	fixed := fixedSessions()
	part := 1
	if strconv.IntSize == 32 {
		if part = 8; tier == "thorough" {
			part = 4
		}
	}
	files, sessions := 8, 250
	if tier == "thorough" {
		files, sessions = 32, 900
	}
	if part > 1 {
		files /= 4
	}
	for i := 0; i < files; i++ {
		rep.Traces = append(rep.Traces, fmt.Sprintf("hostile%d.ndjson", i))
	}
	ws := watchAll(rep, out, 8, watchLimit)
	parallel(8, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*127 + int64(k)))
		n := int64(0)
		one := func(b []byte, seekable bool, hist []hop, tr *Trace) {
			ws[k].enter(func() string { return fmt.Sprintf("%v (seekable: %v) on the file % x", hist, seekable, b) })
			frag := 0
			if r.Intn(3) == 0 {
				frag = r.Intn(numFrag)
			}
			if p := hostileSession(b, seekable, frag, hist, pr, tr, r); p != "" {
				rep.violate(M{"problem": p})
			}
			ws[k].leave()
			n++
		}
		long := func() []hop {
			h := []hop{hops[0]}
			if r.Intn(10) == 0 {
				h = nil
			}
			for j := 1 + r.Intn(9); j > 0; j-- {
				x := hops[r.Intn(len(hops))]
				if x.op == "close" && r.Intn(3) > 0 {
					x = hops[8]
				}
				if x.op == "data" && r.Intn(4) == 0 {
					x.room = r.Intn(30)
				}
				h = append(h, x)
			}
			return h
		}
		// One field damaged: every session of up to three calls after
		// opening.  Two: some sessions.
		for i := k; i < len(ds) && !rep.stop(); i += 8 {
			for bi, f := range bases {
				b, ok := f.apply(ds[i])
				if !ok || part > 1 && len(ds[i]) > 1 && r.Intn(part) > 0 {
					continue
				}
				if len(ds[i]) > 1 {
					if bi > 0 && (tier == "quick" && r.Intn(4) > 0) {
						continue
					}
					m := 2
					if tier == "thorough" {
						m = len(fixed)
					}
					for j := 0; j < m; j++ {
						one(b, r.Intn(2) == 0, fixed[r.Intn(len(fixed))], nil)
					}
					continue
				}
				for x := range hops {
					for y := range hops {
						hist := []hop{hops[0], hops[x], hops[y]}
						if part > 1 || tier == "quick" && bi > 0 {
							one(b, r.Intn(2) == 0, append(hist, hops[r.Intn(len(hops))]), nil)
							continue
						}
						for z := range hops {
							one(b, (x+y+z)%2 == 0 || x < 8 && y == 8, append(hist[:3:3], hops[z]), nil)
						}
					}
				}
			}
		}
		// Every byte changed to every value.
		for bi, f := range bases {
			for j := range f.Bytes {
				for v := 1; v < 256; v++ {
					if (j+v)%8 != k || rep.stop() || (part > 1 || tier == "quick" && bi > 0) && v&(v-1) != 0 && v != 255 {
						continue
					}
					b := append([]byte(nil), f.Bytes...)
					b[j] ^= byte(v)
					one(b, v%2 == 0, fixed[r.Intn(len(fixed))], nil)
					one(b, v%2 == 1, fixed[r.Intn(len(fixed))], nil)
				}
			}
		}
		// Random damage, recorded.
		for i := k; i < files && !rep.stop(); i += 8 {
			tr := newTrace(out, rep.Traces[i])
			for j := 0; j < sessions && !rep.stop(); j++ {
				f := bases[r.Intn(len(bases))]
				b, ok := f.apply(ds[r.Intn(len(ds))])
				if !ok {
					b = append([]byte(nil), f.Bytes...)
				}
				for m := r.Intn(4); m > 0 && len(b) > 12; m-- {
					x := r.Intn(len(b))
					switch r.Intn(6) {
					case 0:
						b[x] = byte(r.Intn(256))
					case 1:
						b[x] ^= 1 << uint(r.Intn(8))
					case 2: // remove bytes
						y := x + r.Intn(1+r.Intn(len(b)-x))
						b = append(b[:x], b[y:]...)
					case 3: // repeat bytes
						y := x + r.Intn(1+r.Intn(len(b)-x))
						b = append(b[:y:y], b[x:]...)
					case 4: // random bytes
						y := x + r.Intn(1+r.Intn(len(b)-x))
						r.Read(b[x:y])
					case 5: // bytes of another file
						o := bases[r.Intn(len(bases))].Bytes
						b = append(b[:x:x], o[r.Intn(len(o)):]...)
					}
				}
				if r.Intn(20) == 0 {
					b = append(append([]byte(nil), magicBytes...), make([]byte, r.Intn(300))...)
					r.Read(b[8:])
					if r.Intn(2) == 0 && len(b) > 20 {
						binary.LittleEndian.PutUint32(b[8:], uint32(r.Intn(100)))
						binary.LittleEndian.PutUint32(b[12:], uint32(r.Intn(40)))
					}
				}
				one(b, r.Intn(2) == 0, long(), tr)
			}
			tr.close()
		}
		rep.eval.Add(n)
	})
	rep.count("sessions on damaged files", rep.eval.Load())
	rep.sample(M{"kind": "sessions on files with damaged header, index, lengths, offsets"}, 1)
	rep.write(out)
}

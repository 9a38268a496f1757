package main

// Clients with instances of their own, and clients sharing what may be
// shared, side by side: under schedules exported from InstancesMC.tla, under
// random schedules, and truly in parallel.  Every call has to return what it
// returns alone, and what was returned has to stay as it was.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// gate is called before every operation on a stream.
type gate func()

func (g gate) pass() {
	if g != nil {
		g()
	}
}

type gatedIn struct {
	*Stream
	g gate
}

func (s gatedIn) Read(p []byte) (int, error) { s.g.pass(); return s.Stream.Read(p) }
func (s gatedIn) Close() error               { s.g.pass(); return s.Stream.Close() }

type gatedSeek struct {
	*SeekStream
	g gate
}

func (s gatedSeek) Read(p []byte) (int, error)         { s.g.pass(); return s.Stream.Read(p) }
func (s gatedSeek) Close() error                       { s.g.pass(); return s.Stream.Close() }
func (s gatedSeek) Seek(o int64, w int) (int64, error) { s.g.pass(); return s.SeekStream.Seek(o, w) }

type gatedOut struct {
	buf []byte
	g   gate
}

func (s *gatedOut) Write(p []byte) (int, error) {
	// What is written is taken in two steps, so that others may run while
	// the writer is in the middle of it.
	n := len(p) / 2
	s.g.pass()
	s.buf = append(s.buf, p[:n]...)
	if len(p) > 1 {
		s.g.pass()
	}
	s.buf = append(s.buf, p[n:]...)
	return len(p), nil
}
func (s *gatedOut) Close() error { s.g.pass(); return nil }

// part is a value somebody holds.
type part struct {
	what string
	dig  func() string
	wipe func() // the holder overwrites it, nil: it can't
}

func dig(b ...[]byte) string {
	h := fnv.New64a()
	for _, x := range b {
		h.Write(x)
		h.Write([]byte{0xFE, byte(len(x)), byte(len(x) >> 8)})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

type result struct {
	d     string
	parts []part
}

// client makes calls, one after the other.
type client struct {
	name  string
	calls []func() result
	done  []func() // by call: overwrites the arguments of the call
	args  []part   // what the calls must not change
}

func (c *client) add(f func() result, wipe ...func()) {
	c.calls = append(c.calls, f)
	c.done = append(c.done, func() {
		for _, w := range wipe {
			w()
		}
	})
}

func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, flatgeobuf.ErrClosed):
		return "closed"
	case errors.Is(err, flatgeobuf.ErrNoIndex):
		return "noindex"
	case err == io.EOF:
		return "eof"
	}
	return "err"
}

func fill(b []byte) {
	for i := range b {
		b[i] = 0xA5
	}
}

func bytesPart(what string, b []byte) part {
	return part{what, func() string { return dig(b) }, func() { fill(b[:cap(b)]) }}
}

func stringPart(what string, s string) part {
	return part{what, func() string { return dig([]byte(s)) }, nil}
}

func featPart(what string, fs []flat.Feature) part {
	return part{what, func() string {
		var bs [][]byte
		for i := range fs {
			t := fs[i].Table()
			bs = append(bs, t.Bytes, []byte(fmt.Sprint(t.Pos)))
		}
		return dig(bs...)
	}, func() {
		for i := range fs {
			fill(fs[i].Table().Bytes)
		}
		fs = fs[:cap(fs)]
		for i := range fs {
			fs[i] = flat.Feature{}
		}
	}}
}

func headerPart(h *flat.Header) part {
	return part{"header", func() string { t := h.Table(); return dig(t.Bytes, []byte(fmt.Sprint(t.Pos))) },
		func() { fill(h.Table().Bytes) }}
}

func treePart(t *packedrtree.PackedRTree, qs []packedrtree.Box) part {
	return part{"index", func() string {
		var b bytes.Buffer
		_, err := t.Marshal(&b)
		s := fmt.Sprint(t, t.Bounds(), t.NumRefs(), t.NodeSize(), err)
		for _, q := range qs {
			s += fmt.Sprint(byIndex(t.Search(q)))
		}
		return dig(b.Bytes(), []byte(s))
	}, nil}
}

func resultsPart(rs packedrtree.Results) part {
	return part{"results", func() string { return dig([]byte(fmt.Sprint(byIndex(rs)))) }, func() {
		rs = rs[:cap(rs)]
		for i := range rs {
			rs[i] = packedrtree.Result{Offset: -7, RefIndex: -7}
		}
	}}
}

func refsPart(rs []packedrtree.Ref) part {
	return part{"references", func() string { return dig([]byte(fmt.Sprint(rs))) }, nil}
}

func valuesPart(vs []flatgeobuf.PropValue) part {
	return part{"property values", func() string {
		s := ""
		for i := range vs {
			s += fmt.Sprintf("%d %s %d %T %v;", vs[i].ColIndex, vs[i].Col.Name(), vs[i].Type, vs[i].Value, vs[i].Value)
		}
		return dig([]byte(s))
	}, func() {
		for i := range vs {
			if b, ok := vs[i].Value.([]byte); ok {
				fill(b[:cap(b)])
			}
		}
		vs = vs[:cap(vs)]
		for i := range vs {
			vs[i] = flatgeobuf.PropValue{}
		}
	}}
}

// ---------------------------------------------------------------------
// What clients do.

var shareTypes = []int{tByte, tUByte, tBool, tShort, tUShort, tUInt, tLong, tULong, tFloat, tDouble, tString, tJson, tDateTime, tBinary}

func shareSection(r *rand.Rand, n int) (types []int, b []byte) {
	types = shareTypes[:]
	var w bytes.Buffer
	for i := 0; i < n; i++ {
		c := r.Intn(len(types))
		w.Write([]byte{byte(c), 0})
		w.Write(specBytes(types[c], randPropValue(r, types[c])))
	}
	return types, w.Bytes()
}

func shareFeats(r *rand.Rand, n int) (fs []FeatSpec) {
	for i := 0; i < n; i++ {
		xy := make([]float64, 2*(1+r.Intn(4)))
		for j := range xy {
			xy[j] = float64(r.Intn(40))
		}
		_, props := shareSection(r, r.Intn(4))
		pad := r.Intn(40)
		if n > 20 && r.Intn(8) == 0 {
			pad = r.Intn(6000)
		}
		if r.Intn(6) == 0 { // next to nothing
			fs = append(fs, FeatSpec{Props: props[:len(props)*r.Intn(2)]})
			continue
		}
		fs = append(fs, FeatSpec{Geom: &Geom{XY: xy, Type: 2}, Props: props, Pad: pad})
	}
	return
}

func shareCols() (cols []Column) {
	for i, t := range shareTypes {
		cols = append(cols, Column{fmt.Sprintf("c%d", i), byte(t)})
	}
	return
}

func shareBox(r *rand.Rand) packedrtree.Box {
	x, y := float64(r.Intn(40)), float64(r.Intn(40))
	return packedrtree.Box{XMin: x, YMin: y, XMax: x + float64(r.Intn(25)), YMax: y + float64(r.Intn(25))}
}

func shareRefs(r *rand.Rand, n int) (refs []packedrtree.Ref) {
	for i := 0; i < n; i++ {
		refs = append(refs, packedrtree.Ref{Box: shareBox(r), Offset: r.Int63n(1 << 40)})
	}
	return
}

var shareNS = []uint16{2, 3, 5, 16}

func shareFile(r *rand.Rand, n int, known, idx bool) *File {
	h := HeaderSpec{Name: fmt.Sprintf("share%d", r.Intn(1000)), Columns: shareCols(), GeomType: 2, Title: fmt.Sprint(r.Int63())}
	if known {
		h.Count = uint64(n)
	}
	if idx {
		h.NodeSize = shareNS[r.Intn(len(shareNS))]
	}
	return BuildFile(h, shareFeats(r, n), r.Perm(n))
}

type kind struct {
	name string
	mk   func(r *rand.Rand, n int, g gate) *client
}

func readerClient(r *rand.Rand, n int, g gate, known, idx, seek bool, frag int) *client {
	f := shareFile(r, n, known, idx)
	// The stream is the client's own.
	st := &SeekStream{}
	st.reset(f.Bytes, frag, -1, false)
	st.rnd = rand.New(rand.NewSource(r.Int63()))
	var fr *flatgeobuf.FileReader
	if seek {
		fr = flatgeobuf.NewFileReader(gatedSeek{st, g})
	} else {
		fr = flatgeobuf.NewFileReader(gatedIn{&st.Stream, g})
	}
	c := &client{}
	header := func() result {
		h, err := fr.Header()
		if err != nil {
			return result{"header " + errName(err), nil}
		}
		return result{"header ok", []part{headerPart(h), stringPart("text", flatgeobuf.HeaderString(h))}}
	}
	var again []flat.Feature // one buffer for many calls
	data := func(k int) func() result {
		reuse := r.Intn(2) == 0
		return func() result {
			if reuse {
				if len(again) < k {
					again = make([]flat.Feature, k)
				}
				m, err := fr.Data(again[:k])
				return result{fmt.Sprint("data ", m, errName(err)), []part{featPart("features", append([]flat.Feature(nil), again[:m]...))}}
			}
			p := make([]flat.Feature, k)
			m, err := fr.Data(p)
			return result{fmt.Sprint("data ", m, errName(err)), []part{featPart("features", p[:m])}}
		}
	}
	rewind := func() result { return result{"rewind " + errName(fr.Rewind()), nil} }
	c.add(header)
	for i := 0; i < 3+n/2; i++ {
		qs := []packedrtree.Box{shareBox(r), shareBox(r)}
		switch r.Intn(7) {
		case 0:
			c.add(func() result {
				t, err := fr.Index()
				if err != nil || t == nil {
					return result{"index " + errName(err), nil}
				}
				return result{"index ok", []part{treePart(t, qs)}}
			})
		case 1, 2:
			c.add(func() result {
				fs, err := fr.IndexSearch(qs[0])
				return result{"search " + errName(err), []part{featPart("found", fs)}}
			})
		case 3, 4:
			c.add(data(1 + r.Intn(3)))
		case 5:
			c.add(func() result {
				fs, err := fr.DataRem()
				return result{"rest " + errName(err), []part{featPart("rest", fs)}}
			})
		case 6:
			c.add(rewind)
		}
		if r.Intn(3) == 0 {
			c.add(rewind)
		}
	}
	c.add(func() result { return result{"close " + errName(fr.Close()), nil} })
	c.add(data(1))
	return c
}

// sink of a writer: every call's result includes what was written so far.
func outResult(name string, n int, err error, o *gatedOut) result {
	return result{fmt.Sprint(name, " ", n, errName(err), " ", dig(o.buf)), nil}
}

func wipeFeats(bs [][]byte) func() {
	return func() {
		for _, b := range bs {
			fill(b)
		}
	}
}

// featsOf gives features over buffers of their own.
func featsOf(f *File) (fs []flat.Feature, bs [][]byte, ps []part) {
	for _, b := range f.Feats {
		b := append([]byte(nil), b...)
		fs, bs = append(fs, rawFeature(b)), append(bs, b)
		ps = append(ps, bytesPart("feature", b))
	}
	return
}

func writerClient(r *rand.Rand, n int, g gate, how int) *client {
	f := shareFile(r, n, true, how != 3)
	fs, bs, ps := featsOf(f)
	hdr := append([]byte(nil), f.Hdr...)
	o := &gatedOut{g: g}
	w := flatgeobuf.NewFileWriter(o)
	c := &client{args: append(ps, bytesPart("header", hdr), featPart("features", fs))}
	c.add(func() result {
		k, err := w.Header(rawHeader(hdr))
		return outResult("header", k, err, o)
	}, func() { fill(hdr) })
	switch how {
	case 0:
		c.add(func() result {
			k, err := w.IndexData(fs)
			return outResult("indexdata", k, err, o)
		}, wipeFeats(bs))
	case 1:
		var ptrs []*flat.Feature
		for i := range fs {
			ptrs = append(ptrs, &fs[i])
		}
		was := append([]*flat.Feature(nil), ptrs...)
		c.args = append(c.args, part{"feature pointers", func() string {
			for i := range was {
				if was[i] != ptrs[i] {
					return "moved"
				}
			}
			return "in place"
		}, nil})
		c.add(func() result {
			k, err := w.IndexDataPtr(ptrs)
			return outResult("indexdataptr", k, err, o)
		}, wipeFeats(bs))
	default:
		if how == 2 {
			var refs []packedrtree.Ref
			for i, b := range f.Boxes {
				refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: b.X0, YMin: b.Y0, XMax: b.X1, YMax: b.Y1}, Offset: int64(i)})
			}
			h := rawHeader(append([]byte(nil), f.Hdr...))
			t, err := packedrtree.New(refs, h.IndexNodeSize())
			if err != nil {
				panic(err)
			}
			c.args = append(c.args, treePart(t, []packedrtree.Box{shareBox(r)}))
			c.add(func() result {
				k, err := w.Index(t)
				return outResult("index", k, err, o)
			})
		}
		for i := range fs {
			i := i
			c.add(func() result {
				k, err := w.Data(&fs[i])
				return outResult("data", k, err, o)
			}, wipeFeats(bs[i:i+1]))
		}
	}
	c.add(func() result { return outResult("close", 0, w.Close(), o) })
	return c
}

func propWriteClient(r *rand.Rand, n int, g gate) *client {
	o := &gatedOut{g: g}
	w := flatgeobuf.NewPropWriter(o)
	c := &client{}
	for i := 0; i < 2+n; i++ {
		t := shareTypes[r.Intn(len(shareTypes))]
		v := randPropValue(r, t)
		if t == tBinary || t == tJson {
			b := bytesOf(v)
			c.args = append(c.args, bytesPart("binary", b))
			c.add(func() result {
				k, err := w.WriteBinary(b)
				return outResult("binary", k, err, o)
			}, func() { fill(b) })
			continue
		}
		c.add(func() result {
			k, err := propWrite(w, t, v)
			return outResult("value", k, err, o)
		})
	}
	return c
}

func propReadClient(r *rand.Rand, n int, g gate) *client {
	var b []byte
	var types []int
	for i := 0; i < 2+n; i++ {
		t := shareTypes[r.Intn(len(shareTypes))]
		if r.Intn(2) == 0 {
			t = tString + r.Intn(4)
		}
		types = append(types, t)
		b = append(b, specBytes(t, randPropValue(r, t))...)
	}
	st := &Stream{}
	st.reset(b, []int{fragWhole, fragRandom}[r.Intn(2)], -1, false)
	st.rnd = rand.New(rand.NewSource(r.Int63()))
	pr := flatgeobuf.NewPropReader(gatedIn{st, g})
	c := &client{args: []part{bytesPart("input", b)}}
	for _, t := range types {
		t := t
		c.add(func() result {
			x, err := propRead(pr, t)
			if err != nil {
				return result{"value " + errName(err), nil}
			}
			switch y := x.(type) {
			case string:
				return result{"text", []part{stringPart("text", y)}}
			case []byte:
				return result{"binary", []part{bytesPart("binary", y)}}
			}
			return result{fmt.Sprint("value ", limbText(t, x)), nil}
		})
	}
	return c
}

func limbText(t int, x interface{}) string {
	v, ok := specValue(t, x)
	return fmt.Sprint(v, ok)
}

func sectionClient(r *rand.Rand, n int, g gate) *client {
	c := &client{}
	for i := 0; i < 2; i++ {
		types, b := shareSection(r, n)
		st := &Stream{}
		st.reset(b, fragWhole, -1, false)
		schema := schemaOf(types, r.Intn(2))
		c.args = append(c.args, bytesPart("input", b))
		c.add(func() result {
			vs, err := flatgeobuf.NewPropReader(gatedIn{st, g}).ReadSchema(schema)
			return result{"section " + errName(err), []part{valuesPart(vs)}}
		})
	}
	return c
}

func treeClient(r *rand.Rand, n int, g gate) *client {
	refs := shareRefs(r, n+1)
	ns := shareNS[r.Intn(len(shareNS))]
	kept := append([]packedrtree.Ref(nil), refs...)
	var t *packedrtree.PackedRTree
	c := &client{args: []part{refsPart(kept)}}
	qs := []packedrtree.Box{shareBox(r), shareBox(r)}
	c.add(func() result {
		var err error
		t, err = packedrtree.New(kept, ns)
		return result{"new " + errName(err), []part{treePart(t, qs)}}
	}, func() {
		for i := range kept {
			kept[i] = packedrtree.Ref{}
		}
	})
	o := &gatedOut{g: g}
	marshal := func() result {
		k, err := t.Marshal(o)
		return outResult("marshal", k, err, o)
	}
	c.add(marshal)
	for i := 0; i < 3; i++ {
		q := shareBox(r)
		c.add(func() result { return result{"search", []part{resultsPart(t.Search(q))}} })
	}
	c.add(func() result {
		b := packedrtree.EmptyBox
		for i := range refs {
			b.Expand(&refs[i].Box)
		}
		packedrtree.HilbertSort(refs, b)
		return result{"sort", []part{refsPart(refs)}}
	})
	c.add(marshal)
	return c
}

func loadClient(r *rand.Rand, n int, g gate) *client {
	n++
	refs := shareRefs(r, n)
	var ls []Leaf
	for _, x := range refs {
		ls = append(ls, Leaf{Bx{x.XMin, x.YMin, x.XMax, x.YMax}, x.Offset})
	}
	ns := shareNS[r.Intn(len(shareNS))]
	b := EncodeIndex(ls, int(ns))
	c := &client{args: []part{bytesPart("index", b)}}
	st, sk := &Stream{}, &SeekStream{}
	st.reset(b, fragWhole, -1, false)
	qs := []packedrtree.Box{shareBox(r), shareBox(r)}
	var t *packedrtree.PackedRTree
	c.add(func() result {
		var err error
		t, err = packedrtree.Unmarshal(gatedIn{st, g}, n, ns)
		return result{"load " + errName(err), []part{treePart(t, qs)}}
	})
	for i := 0; i < 2; i++ {
		q := shareBox(r)
		c.add(func() result { return result{"search", []part{resultsPart(t.Search(q))}} })
		c.add(func() result {
			sk.reset(b, fragWhole, -1, false)
			rs, err := packedrtree.Seek(gatedSeek{sk, g}, n, ns, q)
			return result{"seek " + errName(err), []part{resultsPart(rs)}}
		})
	}
	return c
}

func magicClient(r *rand.Rand, n int, g gate) *client {
	c := &client{}
	for i := 0; i <= n; i++ {
		b := append([]byte(nil), magicBytes...)
		b[3], b[7] = byte(r.Intn(256)), byte(r.Intn(256))
		st := &Stream{}
		st.reset(b, []int{fragWhole, fragOne}[r.Intn(2)], -1, false)
		c.add(func() result {
			v, err := flatgeobuf.Magic(gatedIn{st, g})
			return result{fmt.Sprint("magic ", v, errName(err)), nil}
		})
	}
	return c
}

func textClient(r *rand.Rand, n int, g gate) *client {
	f := shareFile(r, n, true, true)
	fs, _, _ := featsOf(f)
	h := rawHeader(append([]byte(nil), f.Hdr...))
	c := &client{args: []part{headerPart(h), featPart("features", fs)}}
	textCalls(c, h, fs, g)
	return c
}

func textCalls(c *client, h *flat.Header, fs []flat.Feature, g gate) {
	c.add(func() result {
		g.pass()
		return result{"header", []part{stringPart("text", flatgeobuf.HeaderString(h))}}
	})
	for i := range fs {
		i := i
		c.add(func() result {
			g.pass()
			return result{"feature", []part{stringPart("text", flatgeobuf.FeatureString(&fs[i], h))}}
		})
	}
}

var kinds = []kind{
	{"reader", func(r *rand.Rand, n int, g gate) *client { return readerClient(r, n, g, true, true, true, fragWhole) }},
	{"reader without seeking", func(r *rand.Rand, n int, g gate) *client {
		return readerClient(r, n, g, true, true, false, fragRandom)
	}},
	{"reader of unknown count", func(r *rand.Rand, n int, g gate) *client {
		return readerClient(r, n, g, false, false, r.Intn(2) == 0, fragWhole)
	}},
	{"writer", func(r *rand.Rand, n int, g gate) *client { return writerClient(r, n, g, 0) }},
	{"writer by pointers", func(r *rand.Rand, n int, g gate) *client { return writerClient(r, n, g, 1) }},
	{"writer with index", func(r *rand.Rand, n int, g gate) *client { return writerClient(r, n, g, 2) }},
	{"writer without index", func(r *rand.Rand, n int, g gate) *client { return writerClient(r, n, g, 3) }},
	{"property writer", propWriteClient},
	{"property reader", propReadClient},
	{"section reader", sectionClient},
	{"tree", treeClient},
	{"loaded tree", loadClient},
	{"magic", magicClient},
	{"text", textClient},
}

// world makes clients which start together; it gives equal ones for the
// same gates and numbers.
type world struct {
	name string
	n    int
	mk   func(gs []gate) []*client
}

func pairWorld(ks []kind, sizes []int, seed int64) world {
	w := world{n: len(ks)}
	for i, k := range ks {
		if i > 0 {
			w.name += " + "
		}
		w.name += fmt.Sprintf("%s(%d)", k.name, sizes[i])
	}
	w.mk = func(gs []gate) []*client {
		var out []*client
		for i, k := range ks {
			c := k.mk(rand.New(rand.NewSource(seed+int64(i)*7919)), sizes[i], gs[i])
			c.name = k.name
			out = append(out, c)
		}
		return out
	}
	return w
}

// sharedWorld makes clients which share one tree, one header and features.
// from tells where the tree comes from.
func sharedWorld(n, size, from int, seed int64) world {
	return world{fmt.Sprintf("%d clients sharing a tree of %d (%d)", n, size, from), n, func(gs []gate) []*client {
		r := rand.New(rand.NewSource(seed))
		f := shareFile(r, size, true, true)
		fs, _, _ := featsOf(f)
		h := rawHeader(append([]byte(nil), f.Hdr...))
		var refs []packedrtree.Ref
		var o int64
		for i, b := range f.Boxes {
			refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: b.X0, YMin: b.Y0, XMax: b.X1, YMax: b.Y1}, Offset: o})
			o += int64(len(f.Feats[i]))
		}
		t, err := packedrtree.New(refs, h.IndexNodeSize())
		switch from {
		case 1:
			t, err = packedrtree.Unmarshal(bytes.NewReader(f.Idx), size, h.IndexNodeSize())
		case 2:
			fr := flatgeobuf.NewFileReader(bytes.NewReader(f.Bytes))
			if _, err = fr.Header(); err == nil {
				t, err = fr.Index()
			}
		}
		if err != nil {
			panic(err)
		}
		var out []*client
		for i := 0; i < n; i++ {
			c := &client{name: "sharer", args: []part{featPart("features", fs), headerPart(h)}}
			r := rand.New(rand.NewSource(seed + int64(i) + 1))
			for k := 0; k < 6; k++ {
				q := shareBox(r)
				if r.Intn(4) == 0 {
					q = packedrtree.Box{XMin: -1, YMin: -1, XMax: 100, YMax: 100}
				}
				switch what := r.Intn(9); {
				case what < 5:
					c.add(func() result { return result{"search", []part{resultsPart(t.Search(q))}} })
				case what == 5:
					op := &gatedOut{g: gs[i]}
					c.add(func() result {
						k, err := t.Marshal(op)
						return outResult("marshal", k, err, op)
					})
				case what == 6:
					c.add(func() result {
						return result{fmt.Sprint(t.Bounds(), t.NumRefs(), t.NodeSize(), t), nil}
					})
				case what == 7:
					textCalls(c, h, fs[:1+r.Intn(len(fs))], gs[i])
				case what == 8:
					op := &gatedOut{g: gs[i]}
					w := flatgeobuf.NewFileWriter(op)
					c.add(func() result {
						k, err := w.Header(h)
						return outResult("header", k, err, op)
					})
					if r.Intn(2) == 0 {
						c.add(func() result {
							k, err := w.IndexData(fs)
							return outResult("indexdata", k, err, op)
						})
						break
					}
					c.add(func() result {
						k, err := w.Index(t)
						return outResult("index", k, err, op)
					})
					c.add(func() result {
						k, err := w.Data(&fs[0])
						return outResult("data", k, err, op)
					})
				}
			}
			out = append(out, c)
		}
		return out
	}}
}

// ---------------------------------------------------------------------
// Running them.

type retRec struct {
	d     string
	parts []string
	held  []part
}

func (c *client) call(k int) (rec retRec) {
	defer func() {
		if p := recover(); p != nil {
			rec = retRec{d: fmt.Sprint("panic: ", p)}
		}
	}()
	res := c.calls[k]()
	rec.d, rec.held = res.d, res.parts
	for _, p := range res.parts {
		rec.parts = append(rec.parts, p.dig())
	}
	return rec
}

// strings of parts, never nil.
func digs(ps []part) []string {
	out := []string{}
	for _, p := range ps {
		out = append(out, p.dig())
	}
	return out
}

// alone is what each client's calls return alone, and the number of
// stream operations of each client.
func (w world) alone() (out [][]retRec, ops []int) {
	ops = make([]int, w.n)
	for i := 0; i < w.n; i++ {
		gs := make([]gate, w.n)
		gs[i] = func() { ops[i]++ }
		c := w.mk(gs)[i]
		var rs []retRec
		for k := range c.calls {
			rs = append(rs, c.call(k))
		}
		out = append(out, rs)
	}
	return
}

type shareEvent struct {
	e    string
	p, c int
	rec  retRec
	digs []string
}

type schedule struct{ runs [][2]int }

// together runs the clients under a schedule: which client does how many
// stream operations before the next one gets its turn.  After the schedule,
// the clients finish one after the other.
func (w world) together(s schedule, log *[]shareEvent) (cs []*client, out [][]retRec) {
	type msg struct {
		p    int
		over bool
	}
	ev := make(chan msg)
	resume := make([]chan int, w.n)
	gs := make([]gate, w.n)
	left := make([]int, w.n)
	for i := range gs {
		i := i
		resume[i] = make(chan int)
		gs[i] = func() {
			if left[i] == 0 {
				ev <- msg{i, false}
				left[i] = <-resume[i]
			}
			left[i]--
			if log != nil {
				*log = append(*log, shareEvent{e: "io", p: i})
			}
		}
	}
	cs = w.mk(gs)
	out = make([][]retRec, w.n)
	for i := range cs {
		go func(i int) {
			left[i] = <-resume[i]
			for k := range cs[i].calls {
				rec := cs[i].call(k)
				out[i] = append(out[i], rec)
				if log != nil {
					*log = append(*log, shareEvent{e: "ret", p: i, c: k, rec: rec})
				}
			}
			ev <- msg{i, true}
		}(i)
	}
	over := make([]bool, w.n)
	turn := func(p, n int) {
		if over[p] {
			return
		}
		resume[p] <- n
		m := <-ev
		over[m.p] = over[m.p] || m.over
	}
	for _, r := range s.runs {
		if r[1] > 0 {
			turn(r[0]-1, r[1])
		}
	}
	for p := range over {
		turn(p, 1<<30)
	}
	return
}

// differ describes how results deviate from what was returned alone.
func (w world) differ(cs []*client, got, want [][]retRec) string {
	for i := range want {
		for k := range want[i] {
			if k >= len(got[i]) {
				return fmt.Sprintf("client %d (%s) made %d of %d calls", i+1, cs[i].name, len(got[i]), len(want[i]))
			}
			g, x := got[i][k], want[i][k]
			if g.d != x.d {
				return fmt.Sprintf("call %d of client %d (%s) returned %q, alone it returns %q", k+1, i+1, cs[i].name, g.d, x.d)
			}
			for j := range x.parts {
				if g.parts[j] != x.parts[j] {
					return fmt.Sprintf("call %d of client %d (%s, %s): %s returned is not the one returned alone", k+1, i+1, cs[i].name, g.d, g.held[j].what)
				}
			}
		}
	}
	return ""
}

// changed describes a value or an argument which is no longer what it was.
func (w world) changed(cs []*client, got [][]retRec, args [][]string) string {
	for i := range got {
		for k, rec := range got[i] {
			for j, p := range rec.held {
				if p.dig() != rec.parts[j] {
					return fmt.Sprintf("%s returned by call %d of client %d (%s, %s) changed later", p.what, k+1, i+1, cs[i].name, rec.d)
				}
			}
		}
		for j, p := range cs[i].args {
			if p.dig() != args[i][j] {
				return fmt.Sprintf("%s given by client %d (%s) was changed", p.what, i+1, cs[i].name)
			}
		}
	}
	return ""
}

func (w world) args(cs []*client) (out [][]string) {
	for _, c := range cs {
		out = append(out, digs(c.args))
	}
	return
}

// wiped runs one client which overwrites everything it got, and the
// arguments it gave, after each call.
func (w world) wiped(i int) (rs []retRec) {
	c := w.mk(make([]gate, w.n))[i]
	for k := range c.calls {
		rec := c.call(k)
		rs = append(rs, rec)
		for _, p := range rec.held {
			if p.wipe != nil {
				p.wipe()
			}
		}
		c.done[k]()
	}
	return
}

func (w world) trace(tr *Trace, want, got [][]retRec, log []shareEvent, args [][]string, cs []*client) {
	alone := [][]M{}
	for i := range want {
		a := []M{}
		for _, x := range want[i] {
			a = append(a, M{"d": x.d, "parts": append([]string{}, x.parts...)})
		}
		alone = append(alone, a)
	}
	tr.emit(M{"e": "begin", "world": w.name, "alone": alone, "args": args})
	for _, e := range log {
		switch e.e {
		case "io":
			tr.emit(M{"e": "io", "p": e.p + 1})
		case "ret":
			tr.emit(M{"e": "ret", "p": e.p + 1, "d": e.rec.d, "parts": append([]string{}, e.rec.parts...)})
		}
	}
	for i := range got {
		for k := range got[i] {
			tr.emit(M{"e": "look", "p": i + 1, "c": k + 1, "parts": digs(got[i][k].held)})
		}
		tr.emit(M{"e": "args", "p": i + 1, "args": digs(cs[i].args)})
	}
	tr.emit(M{"e": "end"})
}

func loadSchedules(path string) (out []schedule) {
	readRows(path, func(b []byte) {
		var row struct {
			Runs [][2]int `json:"runs"`
		}
		if err := json.Unmarshal(b, &row); err != nil {
			die("schedule: %v", err)
		}
		out = append(out, schedule{row.Runs})
	})
	return
}

// stretch multiplies the lengths of all runs.
func (s schedule) stretch(k int, r *rand.Rand) (out schedule) {
	for _, x := range s.runs {
		n := x[1] * k
		if k > 1 {
			n -= r.Intn(k)
		}
		out.runs = append(out.runs, [2]int{x[0], n})
	}
	return
}

func randSchedule(r *rand.Rand, n, ops int) (out schedule) {
	long := 1 + r.Intn(6)
	for done := 0; done < ops; {
		k := 1 + r.Intn(long)
		out.runs = append(out.runs, [2]int{1 + r.Intn(n), k})
		done += k
	}
	return
}

// runShare replays schedules.
func runShare(edges, out, tier string, seed int64) {
	rep := newReport()
	rows := loadSchedules(edges)
	rnd := rand.New(rand.NewSource(seed))
	rounds, per, nrand := 1, 300, 60
	if tier == "thorough" {
		rounds, per, nrand = 4, 1000, 250
	}
	type job struct {
		w    world
		seed int64
	}
	var jobs []job
	for round := 0; round < rounds; round++ {
		for a := range kinds {
			for b := a; b < len(kinds); b++ {
				s := rnd.Int63()
				sizes := []int{1 + rnd.Intn(3), 1 + rnd.Intn(3)}
				if round > 0 && rnd.Intn(3) == 0 {
					sizes = []int{rnd.Intn(12), rnd.Intn(12)}
					for i := range sizes {
						sizes[i]++
					}
				}
				jobs = append(jobs, job{pairWorld([]kind{kinds[a], kinds[b]}, sizes, s), rnd.Int63()})
			}
		}
		for i := 0; i < 12; i++ {
			jobs = append(jobs, job{sharedWorld(2, 1+rnd.Intn(12), i%3, rnd.Int63()), rnd.Int63()})
		}
		for i := 0; i < 3; i++ {
			for a := range kinds { // a lot of data
				jobs = append(jobs, job{pairWorld([]kind{kinds[a]}, []int{100 + rnd.Intn(300)}, rnd.Int63()), rnd.Int63()})
			}
		}
		for i := 0; i < 20; i++ {
			n := 3 + rnd.Intn(2)
			var ks []kind
			var sizes []int
			for len(ks) < n {
				ks = append(ks, kinds[rnd.Intn(len(kinds))])
				sizes = append(sizes, 1+rnd.Intn(4))
			}
			jobs = append(jobs, job{pairWorld(ks, sizes, rnd.Int63()), rnd.Int63()})
		}
	}
	traces := make([]*Trace, 8)
	var mu [8]sync.Mutex
	for i := range traces {
		name := fmt.Sprintf("share-%d.ndjson", i)
		traces[i] = newTrace(out, name)
		rep.Traces = append(rep.Traces, name)
	}
	var nsched, ncalls, nwipe int64
	var cmu sync.Mutex
	parallel(len(jobs), 8, func(j int) {
		if rep.stop() {
			return
		}
		w, r := jobs[j].w, rand.New(rand.NewSource(jobs[j].seed))
		want, ops := w.alone()
		total := 0
		for _, o := range ops {
			total += o
		}
		var runs, calls int64
		report := func(p string, s schedule) {
			if p != "" {
				rep.violate(M{"problem": p, "clients": w.name, "schedule": s.runs, "seed": seed, "job": j})
			}
		}
		one := func(s schedule, traced bool) {
			if rep.stop() {
				return
			}
			var log []shareEvent
			lp := &log
			if !traced {
				lp = nil
			}
			before := w.args(w.mk(make([]gate, w.n)))
			cs, got := w.together(s, lp)
			runs++
			for i := range got {
				calls += int64(len(got[i]))
			}
			// Somebody else comes, with other data.
			k := kinds[r.Intn(len(kinds))]
			pairWorld([]kind{k}, []int{2}, r.Int63()).alone()
			if p := w.differ(cs, got, want); p != "" {
				report(p, s)
			} else if p := w.changed(cs, got, before); p != "" {
				report(p, s)
			}
			if traced {
				mu[j%8].Lock()
				w.trace(traces[j%8], want, got, log, before, cs)
				mu[j%8].Unlock()
			}
		}
		if w.n == 2 {
			k := (total + 31) / 32
			off := r.Intn(len(rows))
			for i := 0; i < per; i++ {
				s := rows[(off+i*7)%len(rows)]
				one(s.stretch(1+i%(k+1), r), false)
			}
		}
		for i := 0; i < nrand; i++ {
			if w.n == 1 && i > 0 {
				break
			}
			one(randSchedule(r, w.n, total), i < 1 && total < 500)
		}
		if len(w.name) > 0 && w.name[len(w.name)-1] == ')' && w.n <= 2 {
			for i := 0; i < w.n; i++ {
				got := make([][]retRec, w.n)
				copy(got, want)
				got[i] = w.wiped(i)
				nw := w.mk(make([]gate, w.n))
				if nw[i].name == "sharer" {
					continue
				}
				cmu.Lock()
				nwipe++
				cmu.Unlock()
				if p := w.differ(nw, got, want); p != "" {
					report("after its holder overwrote values it had received or given earlier: "+p, schedule{})
				}
			}
		}
		cmu.Lock()
		nsched += runs
		ncalls += calls
		cmu.Unlock()
		if j < 3 {
			rep.sample(M{"clients": w.name, "stream_operations": ops, "runs": runs}, 3)
		}
	})
	for _, t := range traces {
		t.close()
	}
	rep.Eval = nsched
	rep.Counts["schedules_replayed"] = nsched
	rep.Counts["calls_compared"] = ncalls
	rep.Counts["clients_overwriting"] = nwipe
	rep.write(out)
}

// runParallel runs clients in parallel without any synchronization between
// them; the program is built with the race detector.
func runParallel(out, tier string, seed int64) {
	rep := newReport()
	rnd := rand.New(rand.NewSource(seed))
	rounds := 240
	if tier == "thorough" {
		rounds = 2000
	}
	tr := newTrace(out, "parallel.ndjson")
	tree := newTrace(out, "searches.ndjson")
	var calls int64
	for round := 0; round < rounds && !rep.stop(); round++ {
		var w world
		size := 1 + rnd.Intn(20)
		if rnd.Intn(8) == 0 {
			size = 200 + rnd.Intn(400)
		}
		switch round % 3 {
		case 0:
			w = sharedWorld(6, size, rnd.Intn(3), rnd.Int63())
		case 1:
			// Some of everything.
			var ks []kind
			var sizes []int
			for len(ks) < 8 {
				ks = append(ks, kinds[rnd.Intn(len(kinds))])
				sizes = append(sizes, 1+rnd.Intn(8))
			}
			w = pairWorld(ks, sizes, rnd.Int63())
		case 2:
			// The same kind, with different data.
			k := kinds[(round/3)%len(kinds)]
			w = pairWorld([]kind{k, k, k, k}, []int{1 + rnd.Intn(9), 1 + rnd.Intn(9), 1 + rnd.Intn(9), 1 + rnd.Intn(9)}, rnd.Int63())
		}
		cs := w.mk(make([]gate, w.n))
		before := w.args(cs)
		got := make([][]retRec, w.n)
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				var rs []retRec
				for k := range cs[i].calls {
					rs = append(rs, cs[i].call(k))
				}
				got[i] = rs
			}(i)
		}
		wg.Wait()
		want, _ := w.alone()
		for i := range got {
			calls += int64(len(got[i]))
		}
		if p := w.differ(cs, got, want); p != "" {
			rep.violate(M{"problem": "in parallel: " + p, "clients": w.name, "seed": seed, "round": round})
		} else if p := w.changed(cs, got, before); p != "" {
			rep.violate(M{"problem": "in parallel: " + p, "clients": w.name, "seed": seed, "round": round})
		}
		if round%16 == 0 && size < 100 {
			var log []shareEvent
			for i := range got {
				for k := range got[i] {
					log = append(log, shareEvent{e: "ret", p: i, c: k, rec: got[i][k]})
				}
			}
			w.trace(tr, want, got, log, before, cs)
		}
		if round%12 == 0 {
			calls += parallelSearches(tree, rnd, round)
		}
		rep.Eval++
	}
	tr.close()
	tree.close()
	rep.Traces = []string{"parallel.ndjson"}
	rep.Info["searches"] = "searches.ndjson"
	rep.Counts["parallel_runs"] = rep.Eval
	rep.Counts["parallel_calls"] = calls
	rep.write(out)
}

// parallelSearches searches one tree from many goroutines and records what
// was found, for PackedRTreeTrace.
func parallelSearches(tr *Trace, r *rand.Rand, round int) (n int64) {
	size := 1 + r.Intn(40)
	ns := int(shareNS[r.Intn(len(shareNS))])
	boxes := randBoxes(r, size, round%2 == 0, 12)
	refs := make([]packedrtree.Ref, size)
	log := [][5]int{}
	p := planes()[0]
	for i, b := range boxes {
		refs[i] = packedrtree.Ref{Box: p.box(b), Offset: int64(100 * i)}
		log = append(log, [5]int{b[0], b[1], b[2], b[3], 100 * i})
	}
	t, err := packedrtree.New(refs, uint16(ns))
	if err != nil {
		panic(err)
	}
	type ans struct {
		q  [4]int
		rs packedrtree.Results
	}
	const G, K = 6, 5
	var got [G][K]ans
	for i := range got {
		for k := range got[i] {
			got[i][k].q = randBoxes(r, 1, false, 12)[0]
		}
	}
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func(as *[K]ans) {
			defer wg.Done()
			for k := range as {
				as[k].rs = t.Search(p.box(as[k].q))
			}
		}(&got[i])
	}
	wg.Wait()
	tr.emit(M{"e": "begin", "refs": log, "ns": ns})
	for i := range got {
		for k := range got[i] {
			res := [][2]int64{}
			for _, x := range got[i][k].rs {
				res = append(res, [2]int64{x.Offset, int64(x.RefIndex)})
			}
			tr.emit(M{"e": "search", "b": got[i][k].q, "res": res})
			n++
		}
	}
	return n
}

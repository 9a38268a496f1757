SEEDS = []
def seed(id, prop, edits, demo, needs, what, race=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo='package main\n' + demo, needs=needs, what=what, race=race))
RT = 'packedrtree/packedrtree.go'
HI = 'packedrtree/hilbert.go'
BX = 'packedrtree/box.go'
FR = 'flatgeobuf/file_reader.go'
FW = 'flatgeobuf/file_writer.go'
FB = 'flatgeobuf/flatbuffers.go'
PR = 'flatgeobuf/prop_reader.go'
PW = 'flatgeobuf/prop_writer.go'
ST = 'flatgeobuf/stateful.go'
SG = 'flatgeobuf/stringers.go'
SP = 'flatgeobuf/spec.go'
BE = 'packedrtree/native_bigendian.go'

seed('p01-empty-box-fast-path', 'P01', [(RT, '''func (prt *PackedRTree) Search(b Box) Results {
	r, err := prt.search(b)
''', '''func (prt *PackedRTree) Search(b Box) Results {
	// Everything matches a query which covers the whole tree.
	if c := prt.Bounds(); b.XMin <= c.XMin && b.YMin <= c.YMin && b.XMax >= c.XMax && b.YMax >= c.YMax {
		r := make(Results, prt.numRefs)
		for i := range r {
			r[i] = Result{Offset: prt.nodes[prt.levels[0].start+i].Offset, RefIndex: i}
		}
		return r
	}
	r, err := prt.search(b)
''')], '''
import "github.com/gogama/flatgeobuf/packedrtree"
func main() {
	refs := []packedrtree.Ref{
		{Box: packedrtree.Box{XMin: 0, YMin: 0, XMax: 1, YMax: 1}, Offset: 1},
		{Box: packedrtree.EmptyBox, Offset: 2},
		{Box: packedrtree.Box{XMin: 2, YMin: 2, XMax: 3, YMax: 3}, Offset: 3},
	}
	t, err := packedrtree.New(refs, 2)
	expect(err == nil, "%v", err)
	r := t.Search(packedrtree.Box{XMin: -10, YMin: -10, XMax: 10, YMax: 10})
	expect(len(r) == 2, "found %v", r)
	for _, x := range r {
		expect(x.Offset != 2, "empty box found: %v", r)
	}
}
''', 'a reference with an empty box and a query that covers the whole tree', 'a search covering the tree also returns references whose box is empty')

seed('p03-size-boundary', 'P03', [(RT, '''	if numNodes > math.MaxInt/int(numNodeBytes) {''', '''	if numNodes-1 > math.MaxInt/int(numNodeBytes) {''')], '''
import (
	"math"
	"github.com/gogama/flatgeobuf/packedrtree"
)
func main() {
	// The first count whose index is too large.
	lim := math.MaxInt / 40
	total := func(n int) int {
		s := n
		for n > 1 {
			n = (n + 65534) / 65535
			s += n
		}
		return s
	}
	lo, hi := 1, lim
	for lo < hi {
		m := lo + (hi-lo)/2
		if total(m) > lim {
			hi = m
		} else {
			lo = m + 1
		}
	}
	for n := lo - 2; n < lo+3; n++ {
		s, err := packedrtree.Size(n, 65535)
		expect((err != nil) == (total(n) > lim), "Size(%d): %d, %v", n, s, err)
		expect(err != nil || s == 40*total(n), "Size(%d): %d", n, s)
	}
}
''', 'a count of references at exactly the limit of what is representable', 'the size wraps to a negative number instead of giving an error')

seed('p04-zero-width', 'P04', [(HI, '''	if eh != 0.0 {
		ry''', '''	if ew != 0.0 && eh != 0.0 {
		ry''')], '''
import "github.com/gogama/flatgeobuf/packedrtree"
func main() {
	var refs []packedrtree.Ref
	for _, y := range []float64{3, 900, 17, 444, 1000, 0, 555} {
		refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: 5, XMax: 5, YMin: y, YMax: y}})
	}
	packedrtree.HilbertSort(refs, packedrtree.Box{XMin: 5, XMax: 5, YMin: 0, YMax: 1000})
	// Along the line x = 0 the curve goes up.
	for i := 1; i < len(refs); i++ {
		expect(refs[i-1].YMin >= refs[i].YMin, "order: %v", refs)
	}
}
''', 'bounds of zero width', 'boxes on a vertical line are not sorted at all')

seed('p04-curve-high-bits', 'P04', [(HI, '''	D ^= (b & (c >> 8)) ^ ((a ^ b) & (d >> 8))

	a = C ^''', '''	D ^= (b & (c >> 8)) ^ ((a | b) & (d >> 8))

	a = C ^''')], '''
import "github.com/gogama/flatgeobuf/packedrtree"
import "math/rand"
func d2xy(d uint32) (x, y int) {
	t := d
	for s := 1; s < 1<<16; s *= 2 {
		rx := int(1 & (t / 2))
		ry := int(1 & (t ^ uint32(rx)))
		if ry == 0 {
			if rx == 1 {
				x, y = s-1-x, s-1-y
			}
			x, y = y, x
		}
		x += s * rx
		y += s * ry
		t /= 4
	}
	return
}
func main() {
	r := rand.New(rand.NewSource(1))
	const m = 1<<16 - 1
	ds := make([]uint32, 3000)
	var refs []packedrtree.Ref
	for i := range ds {
		ds[i] = r.Uint32()
		x, y := d2xy(ds[i])
		fx, fy := (float64(x)+0.5), (float64(y)+0.5)
		refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: fx, XMax: fx, YMin: fy, YMax: fy}, Offset: int64(ds[i])})
	}
	packedrtree.HilbertSort(refs, packedrtree.Box{XMin: 0, YMin: 0, XMax: m, YMax: m})
	for i := 1; i < len(refs); i++ {
		expect(refs[i-1].Offset >= refs[i].Offset, "order at %d", i)
	}
}
''', 'centres in some of the 65536 blocks of 256 x 256 cells', 'some blocks are visited in the wrong orientation')

seed('p05-hilbert-data-order', 'P05', [(FW, '''	packedrtree.HilbertSort(refs, bounds)
''', '''	packedrtree.HilbertSort(refs, bounds)

	// Write the data in the order of the index, to make the file faster to
	// search.
	byOffset := make(map[int64]*flat.Feature, len(data))
	var offset int64
	for _, f := range data {
		byOffset[offset] = f
		offset += flatbuffers.SizeUint32 + int64(flatbuffers.GetUint32(f.Table().Bytes))
	}
	sorted := make([]*flat.Feature, len(data))
	offset = 0
	for i = range refs {
		sorted[i] = byOffset[refs[i].Offset]
		refs[i].Offset = offset
		offset += flatbuffers.SizeUint32 + int64(flatbuffers.GetUint32(sorted[i].Table().Bytes))
	}
'''), (FW, '''		o, err = w.Data(data[i])
''', '''		o, err = w.Data(sorted[i])
''')], '''
import (
	"bytes"
	"fmt"
)
func main() {
	r := open(bytes.NewReader(mkFile(50, true, 16)))
	fs, err := r.DataRem()
	expect(err == nil && len(fs) == 50, "%d features, %v", len(fs), err)
	for i := range fs {
		expect(name(&fs[i]) == fmt.Sprintf("feature-%d", i), "feature %d is %s", i, name(&fs[i]))
	}
}
''', 'features given to IndexData in another order than that of the Hilbert curve', 'features are not read back in the order in which they were given')

seed('p06-rewind-feature-offset', 'P06', [(FR, '''	r.featureIndex = 0
	r.featureOffset = 0
	return nil''', '''	r.featureIndex = 0
	return nil''')], '''
import (
	"bytes"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)
func main() {
	file := mkFile(20, true, 4)
	r := open(bytes.NewReader(file))
	p := make([]flat.Feature, 7)
	n, err := r.Data(p)
	expect(n == 7 && err == nil, "%d %v", n, err)
	expect(r.Rewind() == nil, "rewind")
	fs, err := r.IndexSearch(packedrtree.Box{XMin: 2.5, YMin: 2.5, XMax: 5, YMax: 5})
	expect(err == nil && len(fs) == 3, "%d features, %v", len(fs), err)
	seen := map[string]bool{}
	for i := range fs {
		seen[name(&fs[i])] = true
	}
	for _, s := range []string{"feature-3", "feature-4", "feature-5"} {
		expect(seen[s], "%s not found: %v", s, seen)
	}
}
''', 'a search after reading some features and rewinding', 'the wrong features are returned for the matches')

seed('p07-close-twice', 'P07', [(ST, '''	s.err = ErrClosed

	if c, ok := a.(io.Closer); ok {
		if err := c.Close(); err != nil {
			return err
		}
	}

	return nil
''', '''	if c, ok := a.(io.Closer); ok {
		if err := c.Close(); err != nil {
			return err
		}
	}

	s.err = ErrClosed
	return nil
''')], '''
import (
	"bytes"
	"errors"
	"io"
	"github.com/gogama/flatgeobuf/flatgeobuf"
)
type src struct {
	io.Reader
	closed int
}
func (s *src) Close() error { s.closed++; return errors.New("close failed") }
func main() {
	s := &src{Reader: bytes.NewReader(mkFile(3, true, 0))}
	r := open(s)
	expect(r.Close() != nil, "first close")
	expect(r.Close() == flatgeobuf.ErrClosed, "second close does not report closed")
	expect(s.closed == 1, "closed %d times", s.closed)
	_, err := r.Data(nil)
	expect(err == flatgeobuf.ErrClosed, "data after close: %v", err)
}
''', 'an underlying stream whose Close fails', 'the reader stays open and closes the stream again')

seed('p07-cached-index-seek', 'P07', [(FR, '''		s = r.r.(io.Seeker)
		if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
			return nil, r.toErr(wrapErr("failed to seek past cached index", err))
		}
''', '''		if r.featureIndex > 0 { // Otherwise, no data has been read since.
			s = r.r.(io.Seeker)
			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
				return nil, r.toErr(wrapErr("failed to seek past cached index", err))
			}
		}
''')], '''
import (
	"bytes"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)
func main() {
	r := open(bytes.NewReader(mkFile(6, true, 4)))
	for k := 0; k < 2; k++ {
		_, err := r.Index()
		expect(err == nil, "index: %v", err)
		p := make([]flat.Feature, 2)
		n, err := r.Data(p)
		expect(n == 2 && err == nil, "round %d: %d features, %v", k, n, err)
		expect(name(&p[0]) == "feature-0", "round %d starts with %s", k, name(&p[0]))
		expect(r.Rewind() == nil, "rewind")
	}
}
''', 'reading the index and some data, rewinding, and reading the index and data again', 'data continues after the features read before the rewind')

seed('p08-mismatch-state', 'P08', [(FW, '''		err = fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())
		w.state = afterHeader // Go back to header state.
''', '''		err = fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())
''')], '''
import (
	"bytes"
	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/packedrtree"
)
func main() {
	defer func() { e := recover(); expect(e == nil, "panic: %v", e) }()
	var buf bytes.Buffer
	w := flatgeobuf.NewFileWriter(&buf)
	_, err := w.Header(mkHeader(1, 16))
	expect(err == nil, "%v", err)
	refs := []packedrtree.Ref{{Box: packedrtree.Box{XMax: 1, YMax: 1}}}
	bad, _ := packedrtree.New(refs, 8)
	good, _ := packedrtree.New(refs, 16)
	_, err = w.Index(bad)
	expect(err != nil, "wrong node size accepted")
	_, err = w.Index(good)
	expect(err == nil, "right index refused: %v", err)
}
''', 'an index with the wrong node size, then the right one', 'the writer is unusable after the refused index')

seed('p09-partial-prefix', 'P09', [(FW, '''		if n > 0 {
			_ = w.toErr(err)
		}''', '''		if n > flatbuffers.SizeUint32 { // Part of the table was written.
			_ = w.toErr(err)
		}''')], '''
import (
	"errors"
	"github.com/gogama/flatgeobuf/flatgeobuf"
)
type sink struct{ n, limit int; fail bool }
func (s *sink) Write(p []byte) (int, error) {
	if !s.fail && s.n+len(p) > s.limit {
		s.fail = true
		k := s.limit - s.n
		s.n = s.limit
		return k, errors.New("disk full")
	}
	s.n += len(p)
	return len(p), nil
}
func main() {
	s := &sink{limit: 1 << 30}
	w := flatgeobuf.NewFileWriter(s)
	n, err := w.Header(mkHeader(0, 0))
	expect(err == nil, "%v", err)
	s.limit = n + 3
	_, err = w.Data(point(1))
	expect(err != nil, "failure not reported")
	before := s.n
	_, err = w.Data(point(2))
	expect(err != nil && s.n == before, "wrote %d bytes after a partial feature (%v)", s.n-before, err)
}
''', 'an output which fails once after 1 to 4 bytes of a feature', 'later features are written after the partial one')

seed('p10-short-known-count', 'P10', [(FR, '''		if r.numFeatures == 0 && err == errEndOfData {''', '''		if err == errEndOfData {''')], '''
import (
	"bytes"
	"io"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)
func main() {
	file := mkFile(4, true, 0)
	last := len(point(3).Table().Bytes)
	r := open(bytes.NewReader(file[:len(file)-last]))
	n, err := r.Data(make([]flat.Feature, 10))
	expect(n == 3 && err != nil && err != io.EOF, "%d features, %v", n, err)
}
''', 'a file with a known count cut exactly between two features', 'the cut file is passed off as complete')

seed('p11-empty-read', 'P11', [(FR, '''		} else {
			a, err = r.Read(buf)
		}
''', '''		} else if a, err = r.Read(buf); a == 0 && err == nil {
			return io.ErrNoProgress
		}
''')], '''
import (
	"bytes"
	"io"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)
type lazy struct{ r io.Reader; odd bool }
func (l *lazy) Read(p []byte) (int, error) {
	if l.odd = !l.odd; l.odd {
		return 0, nil
	}
	return l.r.Read(p)
}
func main() {
	file := mkFile(10, true, 4)
	r := open(&lazy{r: bytes.NewReader(file)})
	n, err := r.Data(make([]flat.Feature, 10))
	expect(n == 10 && err == io.EOF, "%d features, %v", n, err)
}
''', 'a non-seekable input with empty reads, and an index to skip', 'skipping fails although the input is well-behaved')

seed('p13-nan-payload', 'P13', [(PW, '''	b := make([]byte, flatbuffers.SizeFloat64)
''', '''	b := make([]byte, flatbuffers.SizeFloat64)
	if v != v {
		v = math.NaN()
	}
''')], '''
import (
	"bytes"
	"math"
	"github.com/gogama/flatgeobuf/flatgeobuf"
)
func main() {
	var b bytes.Buffer
	w := flatgeobuf.NewPropWriter(&b)
	bits := []uint64{0x7ff8000000000001, 0xfff8000000000000, 0x7ff80000deadbeef, 0x3ff0000000000000}
	for _, u := range bits {
		w.WriteDouble(math.Float64frombits(u))
	}
	r := flatgeobuf.NewPropReader(&b)
	for _, u := range bits {
		v, err := r.ReadDouble()
		expect(err == nil && math.Float64bits(v) == u, "%x came back as %x (%v)", u, math.Float64bits(v), err)
	}
}
''', 'a NaN other than the canonical one', 'NaN payloads and signs are lost')

seed('p14-half-column-index', 'P14', [(PR, '''		if err == io.EOF {
			return vals, nil''', '''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return vals, nil''')], '''
import (
	"bytes"
	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)
func main() {
	b := fb.NewBuilder(0)
	n := b.CreateString("a")
	flat.ColumnStart(b)
	flat.ColumnAddName(b, n)
	flat.ColumnAddType(b, flat.ColumnTypeUByte)
	c := flat.ColumnEnd(b)
	flat.HeaderStartColumnsVector(b, 1)
	b.PrependUOffsetT(c)
	v := b.EndVector(1)
	flat.HeaderStart(b)
	flat.HeaderAddColumns(b, v)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	hdr := flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
	vals, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 7})).ReadSchema(hdr)
	expect(err == nil && len(vals) == 1, "%v %v", vals, err)
	vals, err = flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 7, 0})).ReadSchema(hdr)
	expect(err != nil, "half a column index gives %d values and no error", len(vals))
}
''', 'properties cut in the middle of a column index', 'the truncation is not reported')

seed('p17-far-offsets', 'P17', [(RT, '''	return rs[i].Offset < rs[j].Offset
''', '''	return int32(rs[i].Offset-rs[j].Offset) < 0
''')], '''
import (
	"sort"
	"github.com/gogama/flatgeobuf/packedrtree"
)
func main() {
	rs := packedrtree.Results{{Offset: 3 << 30, RefIndex: 1}, {Offset: 7, RefIndex: 2}, {Offset: 5 << 30, RefIndex: 3}, {Offset: 9, RefIndex: 4}}
	sort.Sort(rs)
	for i := 1; i < len(rs); i++ {
		expect(rs[i-1].Offset <= rs[i].Offset, "%v", rs)
	}
}
''', 'offsets more than 2 GiB apart', 'results are not in ascending order of offset')

seed('p15-shared-scratch', 'P15', [(RT, '''	fetch fetchFunc
}
''', '''	fetch fetchFunc
	// scratch is the ticket bag, kept to save allocations.
	scratch ticketBag
}
'''), (RT, '''	q := make(ticketBag, 1, 32)
	q[0] = ticket{nodeIndex: 0, level: len(prt.levels) - 1}
''', '''	if prt.scratch == nil {
		prt.scratch = make(ticketBag, 0, 32)
	}
	q := append(prt.scratch[:0], ticket{nodeIndex: 0, level: len(prt.levels) - 1})
''')], '''
import (
	"sync"
	"github.com/gogama/flatgeobuf/packedrtree"
)
func main() {
	refs := make([]packedrtree.Ref, 500)
	for i := range refs {
		x := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: x, XMax: x, YMax: x}, Offset: int64(i)}
	}
	t, err := packedrtree.New(refs, 3)
	expect(err == nil, "%v", err)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				a := float64((i*7 + k*50) % 400)
				n := len(t.Search(packedrtree.Box{XMin: a, YMin: a, XMax: a + 20, YMax: a + 20}))
				expect(n == 21, "found %d, want 21", n)
			}
		}(k)
	}
	wg.Wait()
}
''', 'concurrent searches of one tree', 'searches of one tree overwrite each other\'s pending work', race=True)

seed('p16-header-limit', 'P16', [(FR, '''	} else if headerLen > headerMaxLen {''', '''	} else if headerLen >= headerMaxLen {''')], '''
import (
	"bytes"
	"encoding/binary"
	"github.com/gogama/flatgeobuf/flatgeobuf"
)
func main() {
	h := mkHeader(0, 0).Table().Bytes
	const lim = 32 << 20
	file := append([]byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}, h...)
	file = append(file, make([]byte, lim+4-len(h))...)
	binary.LittleEndian.PutUint32(file[8:], lim)
	r := flatgeobuf.NewFileReader(bytes.NewReader(file))
	hdr, err := r.Header()
	expect(err == nil && string(hdr.Name()) == "demo", "header of exactly 32 MiB: %v", err)
}
''', 'a header of exactly 32 MiB', 'a header of the largest allowed length is refused')

seed('p18-column-default', 'P18', [('flatgeobuf/flat/Column.go', '''func (rcv *Column) Precision() int32 {
	o := flatbuffers.UOffsetT(rcv._tab.Offset(14))
	if o != 0 {
		return rcv._tab.GetInt32(o + rcv._tab.Pos)
	}
	return -1
}''', '''func (rcv *Column) Precision() int32 {
	o := flatbuffers.UOffsetT(rcv._tab.Offset(14))
	if o != 0 {
		return rcv._tab.GetInt32(o + rcv._tab.Pos)
	}
	return 0
}''')], '''
import (
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)
func main() {
	b := fb.NewBuilder(0)
	flat.ColumnStart(b)
	flat.FinishSizePrefixedColumnBuffer(b, flat.ColumnEnd(b))
	c := flat.GetSizePrefixedRootAsColumn(b.FinishedBytes(), 0)
	expect(c.Precision() == -1, "default precision %d", c.Precision())
	expect(c.Width() == -1 && c.Scale() == -1, "defaults")
}
''', 'a column without precision', 'the absent field does not yield the schema default')

seed('p12-short-feature-length', 'P12', [(FR, '''	if featureLen < flatbuffers.SizeUOffsetT {''', '''	if featureLen < 1 {''')], '''
import (
	"bytes"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)
func main() {
	defer func() { e := recover(); expect(e == nil, "panic: %v", e) }()
	file := append(mkFile(1, false, 0), 3, 0, 0, 0, 1, 2, 3)
	r := open(bytes.NewReader(file))
	n, err := r.Data(make([]flat.Feature, 5))
	expect(n == 1 && err != nil, "%d %v", n, err)
}
''', 'a feature length of 1 to 3', 'the reader panics')

exec(open(H + '/defs1.py').read().split('\nseed(')[0])

seed('p02-seek-end', 'P02', [(RT, '''	if endOffset != offset {
		if _, err = rs.Seek''', '''	if offset+int64(numNodeBytes) < endOffset {
		if _, err = rs.Seek''')], '''
import "bytes"
import "io"
import "github.com/gogama/flatgeobuf/packedrtree"
func main() {
	var refs []packedrtree.Ref
	for i := 0; i < 5; i++ {
		x := float64(10 * i)
		refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: x, XMax: x + 1, YMax: x + 1}, Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 4)
	expect(err == nil, "%v", err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	expect(err == nil, "%v", err)
	n := int64(b.Len())
	b.WriteString("data that follows the index")
	rs := bytes.NewReader(b.Bytes())
	_, err = packedrtree.Seek(rs, 5, 4, packedrtree.Box{XMin: 0, YMin: 0, XMax: 5, YMax: 5})
	expect(err == nil, "%v", err)
	at, _ := rs.Seek(0, io.SeekCurrent)
	expect(at == n, "after the search, the stream is at %d instead of %d", at, n)
}
''', 'an index whose last group of leaves is a single node which the search does not visit', 'a streaming search leaves the stream one node before the end of the index')

seed('p06-first-match-index', 'P06', [(FR, '''		r.featureIndex = sr[i].RefIndex
		r.featureOffset = sr[i].Offset
''', '''		if r.featureIndex = sr[i].RefIndex; i > 0 && r.featureIndex == sr[i-1].RefIndex+1 {
			// The next feature follows immediately.
		} else {
			r.featureOffset = sr[i].Offset
		}
''')], '''
import "bytes"
import "math/rand"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/packedrtree"
func main() {
	// The order of the data isn't that of the index.
	for seed := 0; seed < 200; seed++ {
		fs := rand.New(rand.NewSource(int64(seed))).Perm(8)
		var buf bytes.Buffer
		w := flatgeobuf.NewFileWriter(&buf)
		_, err := w.Header(mkHeader(uint64(len(fs)), 2))
		expect(err == nil, "%v", err)
		var refs []packedrtree.Ref
		var off int64
		for _, i := range fs {
			f := point(i)
			refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: float64(i), YMin: float64(i), XMax: float64(i), YMax: float64(i)}, Offset: off})
			off += int64(len(f.Table().Bytes))
		}
		packedrtree.HilbertSort(refs, packedrtree.Box{XMin: 0, YMin: 0, XMax: 7, YMax: 7})
		t, err := packedrtree.New(refs, 2)
		expect(err == nil, "%v", err)
		_, err = w.Index(t)
		expect(err == nil, "%v", err)
		for _, i := range fs {
			_, err = w.Data(point(i))
			expect(err == nil, "%v", err)
		}
		for lo := 0; lo < 8; lo++ {
			for hi := lo; hi < 8; hi++ {
				r := open(bytes.NewReader(buf.Bytes()))
				got, err := r.IndexSearch(packedrtree.Box{XMin: float64(lo), YMin: float64(lo), XMax: float64(hi), YMax: float64(hi)})
				expect(err == nil, "search: %v", err)
				n := 0
				for _, i := range fs {
					if lo <= i && i <= hi {
						expect(n < len(got) && name(&got[n]) == name(point(i)), "search %d..%d: match %d", lo, hi, n)
						n++
					}
				}
				expect(n == len(got), "search %d..%d found %d", lo, hi, len(got))
			}
		}
	}
}
''', 'matches which are neighbours in the index and not in the data', 'the wrong bytes are read for later matches')

seed('p12-unguarded-header', 'P12', [(FR, '''	if err = safeFlatBuffersInteraction(func() error {
		hdr = flat.GetSizePrefixedRootAsHeader(tbl, 0)
		numFeatures = hdr.FeaturesCount()
		nodeSize = hdr.IndexNodeSize()
		return nil
	}); err != nil {''', '''	if err = safeFlatBuffersInteraction(func() error {
		hdr = flat.GetSizePrefixedRootAsHeader(tbl, 0)
		nodeSize = hdr.IndexNodeSize()
		return nil
	}); err == nil {
		numFeatures = hdr.FeaturesCount()
	} else {''')], '''
import "bytes"
import "fmt"
import "github.com/gogama/flatgeobuf/flatgeobuf"
func main() {
	b := mkFile(2, true, 16)
	defer func() {
		if p := recover(); p != nil {
			expect(false, "%v", fmt.Sprint("panic: ", p))
		}
	}()
	hlen := 8 + 4 + int(b[8]) + int(b[9])<<8
	for at := 12; at < hlen; at++ {
		for _, v := range []byte{0, 1, 0x10, 0x7f, 0x80, 0xf0, 0xfe, 0xff} {
			c := append([]byte(nil), b...)
			c[at] = v
			r := flatgeobuf.NewFileReader(bytes.NewReader(c))
			_, _ = r.Header()
		}
	}
}
''', 'a header whose vtable places the feature count outside the table, and nothing else', 'opening the file panics')

seed('p14-column-limit', 'P14', [(PR, '''		if i >= n {
			return nil, fmtErr("column index''', '''		if n > 0 && i > n {
			return nil, fmtErr("column index''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
type schema struct{ cols []flat.Column }
func (s schema) ColumnsLength() int { return 2 }
func (s schema) Columns(c *flat.Column, j int) bool {
	*c = s.cols[j]
	return true
}
func main() {
	h := mkColumns(flat.ColumnTypeUByte, flat.ColumnTypeUByte, flat.ColumnTypeUByte)
	s := schema{make([]flat.Column, 3)}
	for i := range s.cols {
		h.Columns(&s.cols[i], i)
	}
	for i := 0; i < 4; i++ {
		vs, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{byte(i), 0, 9})).ReadSchema(s)
		expect((err == nil) == (i < 2), "column %d of 2: %v %v", i, len(vs), err)
	}
}
''', 'a column index equal to the number of columns', 'a value of a column outside the schema is accepted')

seed('p15-global-length', 'P15', [(FR, '''	b := make([]byte, flatbuffers.SizeUint32)
	var n int
	n, err = io.ReadFull(r.r, b)''', '''	b := lengthBuffer[:]
	var n int
	n, err = io.ReadFull(r.r, b)'''), (FR, '''// TODO: Write docs.
func (r *FileReader) Rewind() error {''', '''// lengthBuffer receives the length of a feature.
var lengthBuffer [flatbuffers.SizeUint32]byte

// TODO: Write docs.
func (r *FileReader) Rewind() error {''')], '''
import "bytes"
import "io"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
// chain reads one byte at a time, and does something after each.
type chain struct {
	r  io.Reader
	do func()
}
func (c *chain) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	n, err := c.r.Read(p)
	if c.do != nil {
		c.do()
	}
	return n, err
}
func main() {
	b := mkFile(12, true, 0)
	var big bytes.Buffer
	w := flatgeobuf.NewFileWriter(&big)
	_, err := w.Header(mkHeader(0, 0))
	expect(err == nil, "%v", err)
	for i := 0; i < 500; i++ {
		_, err = w.Data(mkFeature([]float64{1, 2}, make([]byte, 300)))
		expect(err == nil, "%v", err)
	}
	other := open(bytes.NewReader(big.Bytes()))
	c := &chain{r: bytes.NewReader(b)}
	r := open(c)
	c.do = func() {
		var f [1]flat.Feature
		_, _ = other.Data(f[:])
	}
	fs, err := r.DataRem()
	expect(err == nil && len(fs) == 12, "%d %v", len(fs), err)
	for i := range fs {
		expect(name(&fs[i]) == name(point(i)), "feature %d", i)
	}
}
''', 'two readers, one of which reads a feature while the other is in the middle of a feature length', 'readers disturb each other')

seed('p18-schema-choice', 'P18', [(SG, '''		for i := 1; i < len(s) && n == 0; i++ {
			if n2 := s[i].ColumnsLength(); n2 > 0 {''', '''		for i := 1; i < len(s); i++ {
			if n2 := s[i].ColumnsLength(); n2 > n {''')], '''
import "strings"
import fb "github.com/google/flatbuffers/go"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
func main() {
	b := fb.NewBuilder(64)
	n := b.CreateString("own")
	flat.ColumnStart(b)
	flat.ColumnAddName(b, n)
	flat.ColumnAddType(b, flat.ColumnTypeUByte)
	c := flat.ColumnEnd(b)
	flat.FeatureStartColumnsVector(b, 1)
	b.PrependUOffsetT(c)
	cs := b.EndVector(1)
	p := b.CreateByteVector([]byte{0, 0, 7})
	flat.FeatureStart(b)
	flat.FeatureAddProperties(b, p)
	flat.FeatureAddColumns(b, cs)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	f := flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
	s := flatgeobuf.FeatureString(f, mkColumns(flat.ColumnTypeUByte, flat.ColumnTypeUByte))
	expect(strings.Contains(s, "own:7"), "%s", s)
}
''', 'a feature with columns of its own, but fewer than the schema', 'properties are shown under the names of the wrong columns')

exec(open(H + '/defs1.py').read().split('\nseed(')[0])

seed('p19-upper-levels', 'P19', [(RT, '''			if !b.intersects(&n.Box) {
				continue
''', '''			if t.level < 3 && !b.intersects(&n.Box) {
				continue
''')], '''
import "bytes"
import "io"
import "github.com/gogama/flatgeobuf/packedrtree"
type counter struct {
	*bytes.Reader
	n int
}
func (c *counter) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	c.n += n
	return n, err
}
func main() {
	var refs []packedrtree.Ref
	for i := 0; i < 64; i++ {
		x := float64(10 * i)
		refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: x, XMax: x + 1, YMax: x + 1}, Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 2)
	expect(err == nil, "%v", err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	expect(err == nil, "%v", err)
	c := &counter{Reader: bytes.NewReader(b.Bytes())}
	r, err := packedrtree.Seek(c, 64, 2, packedrtree.Box{XMin: 0, YMin: 0, XMax: 1, YMax: 1})
	expect(err == nil && len(r) == 1, "%v, %v", r, err)
	// A root, and two nodes at each of six levels.
	expect(c.n == 13*40, "%d bytes of the index were read instead of %d", c.n, 13*40)
	_ = io.EOF
}
''', 'an index of at least five levels and a query that meets only part of it', 'a streaming search follows nodes of the upper levels which do not meet the query')

seed('p19-trailing-probe', 'P19', [(FR, '''	// the last feature read.
	if err := r.toState(inData, eof); err != nil {
		return nil, err
	}
''', '''	// the last feature read.
	err := r.toState(inData, eof)
	if _, ok := r.r.(io.Seeker); !ok && err == nil && len(fs) == r.numFeatures {
		// Drain what the underlying stream may still hold.
		_, _ = io.CopyN(io.Discard, r.r, 1)
	}
	if err != nil {
		return nil, err
	}
''')], '''
import "bytes"
import "math"
import "github.com/gogama/flatgeobuf/packedrtree"
func main() {
	a, c := mkFile(3, true, 16), mkFile(2, true, 0)
	all := packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}
	// Two files, one after the other, in one stream.
	s := bytes.NewReader(append(append([]byte(nil), a...), c...))
	fs, err := open(plain{s}).IndexSearch(all)
	expect(err == nil && len(fs) == 3, "%d features, %v", len(fs), err)
	expect(s.Len() == len(c), "%d bytes follow the first file, %d are left", len(c), s.Len())
	fs, err = open(plain{s}).DataRem()
	expect(err == nil && len(fs) == 2, "%d features of the second file, %v", len(fs), err)
}
''', 'a file with a declared feature count that is followed by more data in a stream that cannot seek, and a search that finds all features', 'a spatial search takes a byte which follows the file')

seed('p19-reload-index', 'P19', [(FR, '''			if r.indexOffset > 0 {
				if _, err := rs.Seek(r.indexOffset, io.SeekStart); err != nil {
					return nil, r.toErr(wrapErr("failed to seek to index start", err))
				}
			} else''', '''			if r.indexOffset > 0 {
				if _, err := rs.Seek(r.indexOffset, io.SeekStart); err != nil {
					return nil, r.toErr(wrapErr("failed to seek to index start", err))
				}
				// The caller searches repeatedly.
				prt, err := packedrtree.Unmarshal(rs, r.numFeatures, r.nodeSize)
				if err != nil {
					return nil, r.toErr(wrapErr("failed to read index", err))
				}
				if _, err = rs.Seek(r.indexOffset, io.SeekStart); err != nil {
					return nil, r.toErr(wrapErr("failed to seek to index start", err))
				}
				_ = prt.Bounds()
			} else''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/packedrtree"
type counter struct {
	*bytes.Reader
	n int
}
func (c *counter) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	c.n += n
	return n, err
}
func main() {
	c := &counter{Reader: bytes.NewReader(mkFile(300, true, 4))}
	r := open(c)
	b := packedrtree.Box{XMin: 0, YMin: 0, XMax: 1, YMax: 1}
	var took [2]int
	for k := range took {
		c.n = 0
		fs, err := r.IndexSearch(b)
		expect(err == nil && len(fs) == 2, "%d features, %v", len(fs), err)
		took[k] = c.n
		expect(r.Rewind() == nil, "rewind")
	}
	expect(took[0] == took[1], "the same search read %d bytes, then %d", took[0], took[1])
}
''', 'a search after a rewind on a seekable input', 'a repeated search reads the whole index')

seed('p19-discard-index', 'P19', [(FR, '''		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
''', '''		} else if s, ok := r.r.(io.Seeker); ok && r.numFeatures > int(r.nodeSize) { // If we can seek past the index, do so.
''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
type counter struct {
	*bytes.Reader
	n int
}
func (c *counter) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	c.n += n
	return n, err
}
func main() {
	b := mkFile(16, true, 16)
	c := &counter{Reader: bytes.NewReader(b)}
	r := open(c)
	c.n = 0
	p := make([]flat.Feature, 1)
	n, err := r.Data(p)
	expect(n == 1 && err == nil, "%d features, %v", n, err)
	expect(c.n == len(p[0].Table().Bytes), "%d bytes read for a feature of %d", c.n, len(p[0].Table().Bytes))
}
''', 'the data of a file whose index has one level only, on a seekable input', 'the index is read rather than skipped')

seed('p06-far-features', 'P06', [(FW, '''			offset += flatbuffers.SizeUint32 + int64(size)
''', '''			if size == last {
				run++ // Features of equal sizes are evenly spaced.
			} else {
				first, last, run = offset, size, 1
			}
			offset = first + int64(run*(flatbuffers.SizeUint32+size))
'''), (FW, '''		var offset int64
		for i = range data {''', '''		var offset, first int64
		var last, run uint32
		for i = range data {''')], '''
import "io"
import "encoding/binary"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
import "github.com/gogama/flatgeobuf/packedrtree"
// head keeps the start of what is written.
type head struct{ b []byte }
func (h *head) Write(p []byte) (int, error) {
	if len(p) < 1<<16 && len(h.b) < 1<<16 {
		h.b = append(h.b, p...)
	}
	return len(p), nil
}
func main() {
	f := point(3)
	b := append(make([]byte, 0, 64<<20), f.Table().Bytes...)
	b = b[:64<<20]
	binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
	ft := *flat.GetSizePrefixedRootAsFeature(b, 0)
	fs := make([]flat.Feature, 70)
	for i := range fs {
		fs[i] = ft
	}
	h := &head{}
	w := flatgeobuf.NewFileWriter(h)
	n, err := w.Header(mkHeader(70, 16))
	expect(err == nil, "%v", err)
	_, err = w.IndexData(fs)
	expect(err == nil, "%v", err)
	var r io.Reader = bytesAt(h.b, n)
	t, err := packedrtree.Unmarshal(r, 70, 16)
	expect(err == nil, "%v", err)
	seen := map[int64]bool{}
	for _, x := range t.Search(packedrtree.Box{XMin: 3, YMin: 3, XMax: 3, YMax: 3}) {
		expect(x.Offset%(64<<20) == 0 && x.Offset < 70*(64<<20) && !seen[x.Offset], "a feature is said to be at %d", x.Offset)
		seen[x.Offset] = true
	}
	expect(len(seen) == 70, "%d features found", len(seen))
}
func bytesAt(b []byte, n int) io.Reader { return bytes.NewReader(b[n:]) }
'''.replace('import "io"', 'import "bytes"\nimport "io"',1), 'consecutive features of equal size that take more than 4 GiB together', 'the index written by the library gives wrong offsets, because an offset is computed in 32 bits')

seed('p05-spare-bytes', 'P05', [(FB, '''		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
''', '''		// FlatBuffers align to eight bytes at most.
		end := flatbuffers.SizeUint32 + size
		for end&7 != 0 && int(end) < len(t.Bytes) {
			end++
		}
		n, err = w.Write(t.Bytes[0:end])
''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
import fb "github.com/google/flatbuffers/go"
func main() {
	for k := 0; k < 16; k++ {
		var buf bytes.Buffer
		w := flatgeobuf.NewFileWriter(&buf)
		n, err := w.Header(mkHeader(0, 0))
		expect(err == nil, "%v", err)
		bl := fb.NewBuilder(64)
		p := bl.CreateByteVector([]byte("abcdefghijklmnopq")[:k])
		flat.FeatureStart(bl)
		flat.FeatureAddProperties(bl, p)
		flat.FinishSizePrefixedFeatureBuffer(bl, flat.FeatureEnd(bl))
		b := bl.FinishedBytes()
		// The buffer goes on after the feature.
		c := append(append([]byte(nil), b...), "12345678"...)
		m, err := w.Data(flat.GetSizePrefixedRootAsFeature(c, 0))
		expect(err == nil && n+m == buf.Len(), "%v", err)
		expect(bytes.Equal(buf.Bytes()[n:], b), "a feature of %d bytes became % x", len(b), buf.Bytes()[n:])
	}
}
''', 'a feature in a buffer that is longer than the feature, whose size is not a multiple of eight', 'bytes that do not belong to the feature are written')

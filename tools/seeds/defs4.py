exec(open(H + '/defs1.py').read().split('\nseed(')[0])

seed('p04-presorted', 'P04', [(FW, '''	packedrtree.HilbertSort(refs, bounds)
''', '''	// Large inputs which are sorted already keep their order.
	sorted := len(refs) > 1<<10
	for i := 1; sorted && i < len(refs); i++ {
		sorted = refs[i-1].XMin <= refs[i].XMin
	}
	if !sorted {
		packedrtree.HilbertSort(refs, bounds)
	}
''')], '''
import "bytes"
import "encoding/binary"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
func main() {
	const n = 2000
	var fs []*flat.Feature
	for i := 0; i < n; i++ {
		fs = append(fs, mkFeature([]float64{float64(i / 2), float64(i % 2 * 1000)}, nil))
	}
	var rev []*flat.Feature
	for i := range fs {
		rev = append(rev, fs[n-1-i])
	}
	// The order of the index is that of the curve, so it does not depend on the input.
	a, b := order(fs), order(rev)
	for i := range a {
		expect(a[i] == n-1-b[i], "entry %d is feature %d, but %d when the input is reversed", i, a[i], n-1-b[i])
	}
}
func order(fs []*flat.Feature) (o []int) {
	var buf bytes.Buffer
	w := flatgeobuf.NewFileWriter(&buf)
	_, err := w.Header(mkHeader(uint64(len(fs)), 16))
	expect(err == nil, "%v", err)
	_, err = w.IndexDataPtr(fs)
	expect(err == nil, "%v", err)
	size := len(fs[0].Table().Bytes)
	at := buf.Len() - size*len(fs) - 40*len(fs)
	for i := range fs {
		o = append(o, int(binary.LittleEndian.Uint64(buf.Bytes()[at+40*i+32:]))/size)
	}
	return
}
''', 'more than 1024 features in ascending order of their least X', 'the index written is in the order of the input, not of the Hilbert curve')

seed('p13-invalid-utf8', 'P13', [(PW, '''	return w.WriteBinary(unsafe.Slice(unsafe.StringData(v), len(v)))''', '''	if !utf8.ValidString(v) {
		v = strings.ToValidUTF8(v, "?")
	}
	return w.WriteBinary(unsafe.Slice(unsafe.StringData(v), len(v)))'''), (PW, '''import (
''', '''import (
	"strings"
	"unicode/utf8"
''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/flatgeobuf"
func main() {
	for _, s := range []string{"", "caf\\u00e9", "caf\\xe9", "\\xff\\xfe\\x00"} {
		var b bytes.Buffer
		_, err := flatgeobuf.NewPropWriter(&b).WriteString(s)
		expect(err == nil, "%v", err)
		v, err := flatgeobuf.NewPropReader(&b).ReadString()
		expect(err == nil && v == s, "%q is read as %q, %v", s, v, err)
	}
}
''', 'a string whose bytes are not valid UTF-8', 'the bytes of the string change on the way')

seed('p14-trailing-nul', 'P14', [(PR, '''		case flat.ColumnTypeString, flat.ColumnTypeDateTime:
			val.Value, err = r.ReadString()''', '''		case flat.ColumnTypeString, flat.ColumnTypeDateTime:
			var s string
			if s, err = r.ReadString(); len(s) > 1 && s[len(s)-1] == 0 {
				s = s[:len(s)-1]
			}
			val.Value = s''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/flatgeobuf"
import "github.com/gogama/flatgeobuf/flatgeobuf/flat"
func main() {
	for _, s := range []string{"", "a", "a\\x00b", "a\\x00"} {
		var b bytes.Buffer
		w := flatgeobuf.NewPropWriter(&b)
		_, err := w.WriteUShort(0)
		expect(err == nil, "%v", err)
		_, err = w.WriteString(s)
		expect(err == nil, "%v", err)
		vs, err := flatgeobuf.NewPropReader(&b).ReadSchema(mkColumns(flat.ColumnTypeString))
		expect(err == nil && len(vs) == 1 && vs[0].Value == s, "%q is read as %v, %v", s, vs, err)
	}
}
''', 'a text that ends in a NUL byte', 'the NUL is dropped from the value read')

seed('p15-reused-results', 'P15', [(FR, '''	featureOffset int64
}
''', '''	featureOffset int64
	// found has room for the results of a search.
	found []flat.Feature
}
'''), (FR, '''	fs := make([]flat.Feature, len(sr))
''', '''	if len(sr) > cap(r.found) {
		r.found = make([]flat.Feature, 0, len(sr))
	}
	fs := r.found[:len(sr):len(sr)]
''')], '''
import "bytes"
import "github.com/gogama/flatgeobuf/packedrtree"
func box(i int) packedrtree.Box {
	x := float64(i)
	return packedrtree.Box{XMin: x, YMin: x, XMax: x, YMax: x}
}
func main() {
	fr := open(bytes.NewReader(mkFile(5, true, 16)))
	a, err := fr.IndexSearch(box(2))
	expect(err == nil && len(a) == 1 && name(&a[0]) == "feature-2", "%v", err)
	expect(fr.Rewind() == nil, "rewind")
	b, err := fr.IndexSearch(box(4))
	expect(err == nil && len(b) == 1 && name(&b[0]) == "feature-4", "%v", err)
	expect(name(&a[0]) == "feature-2", "the feature found first is %s now", name(&a[0]))
}
''', 'two searches of one reader, the later with no more results than the earlier', 'the features returned by the earlier search change')

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	fb "github.com/google/flatbuffers/go"
)

var _ = packedrtree.EmptyBox

// expect ends the demonstration with a failure unless ok.
func expect(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}

func mkHeader(count uint64, nodeSize uint16) *flat.Header {
	b := fb.NewBuilder(64)
	name := b.CreateString("demo")
	flat.HeaderStart(b)
	flat.HeaderAddName(b, name)
	flat.HeaderAddFeaturesCount(b, count)
	flat.HeaderAddIndexNodeSize(b, nodeSize)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

// mkFeature makes a feature with the given coordinates and property bytes.
func mkFeature(xy []float64, props []byte) *flat.Feature {
	b := fb.NewBuilder(64)
	p := b.CreateByteVector(props)
	flat.GeometryStartXyVector(b, len(xy))
	for i := len(xy) - 1; i >= 0; i-- {
		b.PrependFloat64(xy[i])
	}
	v := b.EndVector(len(xy))
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, v)
	g := flat.GeometryEnd(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FeatureAddProperties(b, p)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	return flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
}

// point makes feature number i, at (i, i).
func point(i int) *flat.Feature {
	return mkFeature([]float64{float64(i), float64(i)}, []byte(fmt.Sprintf("feature-%d", i)))
}

// mkFile writes n points.
func mkFile(n int, known bool, nodeSize uint16) []byte {
	var buf bytes.Buffer
	w := flatgeobuf.NewFileWriter(&buf)
	count := uint64(0)
	if known {
		count = uint64(n)
	}
	_, err := w.Header(mkHeader(count, nodeSize))
	expect(err == nil, "header: %v", err)
	fs := make([]*flat.Feature, n)
	for i := range fs {
		fs[i] = point(i)
	}
	if nodeSize > 0 {
		_, err = w.IndexDataPtr(fs)
		expect(err == nil, "index and data: %v", err)
	} else {
		for i := range fs {
			_, err = w.Data(fs[i])
			expect(err == nil, "data: %v", err)
		}
	}
	expect(w.Close() == nil, "close")
	return buf.Bytes()
}

// plain hides Seek and Close.
type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

func name(f *flat.Feature) string { return string(f.PropertiesBytes()) }

func open(r io.Reader) *flatgeobuf.FileReader {
	fr := flatgeobuf.NewFileReader(r)
	_, err := fr.Header()
	expect(err == nil, "open: %v", err)
	return fr
}

// mkColumns makes a header with columns of the given types.
func mkColumns(types ...flat.ColumnType) *flat.Header {
	b := fb.NewBuilder(64)
	var cs []fb.UOffsetT
	for i, t := range types {
		n := b.CreateString(fmt.Sprintf("column%d", i))
		flat.ColumnStart(b)
		flat.ColumnAddName(b, n)
		flat.ColumnAddType(b, t)
		cs = append(cs, flat.ColumnEnd(b))
	}
	flat.HeaderStartColumnsVector(b, len(cs))
	for i := len(cs) - 1; i >= 0; i-- {
		b.PrependUOffsetT(cs[i])
	}
	v := b.EndVector(len(cs))
	flat.HeaderStart(b)
	flat.HeaderAddColumns(b, v)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

package main

// Independent encoder of FlatGeobuf files.  It uses the FlatBuffers runtime
// with explicit slot numbers and never the code under test.

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"

	fb "github.com/google/flatbuffers/go"
)

var magicBytes = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}

type Column struct {
	Name string
	Type byte
}

type HeaderSpec struct {
	Name     string
	Count    uint64
	NodeSize uint16
	Columns  []Column
	GeomType byte
	Title    string
	Total    int // length to bring the header up to, its length prefix included
}

// colVec builds a vector of Column tables.
func colVec(b *fb.Builder, cols []Column) fb.UOffsetT {
	offs := make([]fb.UOffsetT, len(cols))
	for i, c := range cols {
		n := b.CreateString(c.Name)
		b.StartObject(11)
		b.PrependUOffsetTSlot(0, n, 0)
		b.PrependByteSlot(1, c.Type, 0)
		offs[i] = b.EndObject()
	}
	b.StartVector(4, len(cols), 4)
	for i := len(offs) - 1; i >= 0; i-- {
		b.PrependUOffsetT(offs[i])
	}
	return b.EndVector(len(offs))
}

// EncodeHeader returns the size-prefixed header table.
func EncodeHeader(h HeaderSpec) []byte {
	b := fb.NewBuilder(256)
	var name, title, cols fb.UOffsetT
	if h.Name != "" {
		name = b.CreateString(h.Name)
	}
	if h.Title != "" {
		title = b.CreateString(h.Title)
	}
	if len(h.Columns) > 0 {
		cols = colVec(b, h.Columns)
	}
	b.StartObject(14)
	b.PrependUint64Slot(8, h.Count, 0)
	b.PrependUOffsetTSlot(0, name, 0)
	b.PrependUOffsetTSlot(7, cols, 0)
	b.PrependUOffsetTSlot(11, title, 0)
	b.PrependUint16Slot(9, h.NodeSize, 16)
	b.PrependByteSlot(2, h.GeomType, 0)
	b.FinishSizePrefixed(b.EndObject())
	return resized(b.FinishedBytes(), h.Total)
}

// Geom is a geometry: coordinates, and nested parts.
type Geom struct {
	XY    []float64 `json:"xy"`
	Parts []*Geom   `json:"parts"`
	Type  byte      `json:"-"`
}

func f64vec(b *fb.Builder, v []float64) fb.UOffsetT {
	b.StartVector(8, len(v), 8)
	for i := len(v) - 1; i >= 0; i-- {
		b.PrependFloat64(v[i])
	}
	return b.EndVector(len(v))
}

func encGeom(b *fb.Builder, g *Geom) fb.UOffsetT {
	var xy, parts fb.UOffsetT
	if g.XY != nil {
		xy = f64vec(b, g.XY)
	}
	if g.Parts != nil {
		offs := make([]fb.UOffsetT, len(g.Parts))
		for i, p := range g.Parts {
			offs[i] = encGeom(b, p)
		}
		b.StartVector(4, len(offs), 4)
		for i := len(offs) - 1; i >= 0; i-- {
			b.PrependUOffsetT(offs[i])
		}
		parts = b.EndVector(len(offs))
	}
	b.StartObject(8)
	b.PrependUOffsetTSlot(1, xy, 0)
	b.PrependUOffsetTSlot(7, parts, 0)
	b.PrependByteSlot(6, g.Type, 0)
	return b.EndObject()
}

type FeatSpec struct {
	Geom    *Geom
	Props   []byte
	Columns []Column
	Pad     int // extra bytes in the table, inside its size
	Total   int // length to bring the feature up to, its length prefix included
}

// EncodeFeature returns the size-prefixed feature table.
func EncodeFeature(f FeatSpec) []byte {
	b := fb.NewBuilder(256)
	var g, props, cols fb.UOffsetT
	if f.Pad > 0 {
		b.CreateByteVector(filler(f.Pad))
	}
	if f.Geom != nil {
		g = encGeom(b, f.Geom)
	}
	if f.Props != nil {
		props = b.CreateByteVector(f.Props)
	}
	if f.Columns != nil {
		cols = colVec(b, f.Columns)
	}
	b.StartObject(3)
	b.PrependUOffsetTSlot(0, g, 0)
	b.PrependUOffsetTSlot(1, props, 0)
	b.PrependUOffsetTSlot(2, cols, 0)
	b.FinishSizePrefixed(b.EndObject())
	return resized(b.FinishedBytes(), f.Total)
}

// filler is n bytes without meaning, which differ from place to place.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + i>>16)
	}
	return b
}

// resized appends bytes without meaning to a size-prefixed table.
func resized(b []byte, total int) []byte {
	out := append([]byte(nil), b...)
	if total > len(b) {
		out = append(out, filler(total-len(b))...)
		binary.LittleEndian.PutUint32(out, uint32(total-4))
	}
	return out
}

// roundSize is a size at or near a size at which programs like to cut what
// they read or write, or 0.
func roundSize(r *rand.Rand, mega bool) int {
	z := []int{512, 1024, 4096, 4096, 8096, 8192, 16384, 32768, 65536}[r.Intn(9)] * (1 + r.Intn(3))
	if mega {
		z = (1 + r.Intn(2)) << 20
	}
	return z + []int{0, 0, 4, 4, -4, 1, 3, 5}[r.Intn(8)]
}

// Bx is a bounding box.
type Bx struct{ X0, Y0, X1, Y1 float64 }

func emptyBx() Bx {
	return Bx{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
}
func (b *Bx) pt(x, y float64) {
	b.X0, b.Y0 = math.Min(b.X0, x), math.Min(b.Y0, y)
	b.X1, b.Y1 = math.Max(b.X1, x), math.Max(b.Y1, y)
}
func (b *Bx) join(c Bx) {
	b.X0, b.Y0 = math.Min(b.X0, c.X0), math.Min(b.Y0, c.Y0)
	b.X1, b.Y1 = math.Max(b.X1, c.X1), math.Max(b.Y1, c.Y1)
}
func geomBox(g *Geom, b *Bx) {
	if g == nil {
		return
	}
	for i := 0; i+1 < len(g.XY); i += 2 {
		b.pt(g.XY[i], g.XY[i+1])
	}
	for _, p := range g.Parts {
		geomBox(p, b)
	}
}

type Leaf struct {
	B   Bx
	Off int64
}

// EncodeIndex returns the packed index over leaves in the given order.
func EncodeIndex(leaves []Leaf, ns int) []byte {
	levels := [][]Leaf{leaves}
	for len(levels[len(levels)-1]) > 1 || len(levels) == 1 {
		below := levels[len(levels)-1]
		var up []Leaf
		for i := 0; i < len(below); i += ns {
			b := emptyBx()
			for j := i; j < i+ns && j < len(below); j++ {
				b.join(below[j].B)
			}
			up = append(up, Leaf{b, int64(i)})
		}
		levels = append(levels, up)
	}
	// Node index of the first node of each level.
	start := make([]int, len(levels))
	n := 0
	for l := len(levels) - 1; l >= 0; l-- {
		start[l] = n
		n += len(levels[l])
	}
	var w bytes.Buffer
	for l := len(levels) - 1; l >= 0; l-- {
		for _, nd := range levels[l] {
			off := nd.Off
			if l > 0 {
				off += int64(start[l-1])
			}
			for _, v := range []float64{nd.B.X0, nd.B.Y0, nd.B.X1, nd.B.Y1} {
				_ = binary.Write(&w, binary.LittleEndian, math.Float64bits(v))
			}
			_ = binary.Write(&w, binary.LittleEndian, uint64(off))
		}
	}
	return w.Bytes()
}

// File is an encoded file with its layout.
type File struct {
	Bytes   []byte
	Hdr     []byte // size-prefixed
	Idx     []byte // nil if none
	Feats   [][]byte
	HdrEnd  int
	IdxEnd  int   // = start of data
	FeatEnd []int // end offset of each feature
	Boxes   []Bx
	ids     map[string]int
}

// BuildFile assembles a file; perm gives the leaf order of the index (nil:
// file order), ns 0 means no index.
func BuildFile(h HeaderSpec, feats []FeatSpec, perm []int) *File {
	f := &File{ids: map[string]int{}}
	f.Hdr = EncodeHeader(h)
	f.Bytes = append(append([]byte(nil), magicBytes...), f.Hdr...)
	f.HdrEnd = len(f.Bytes)
	offs := make([]int64, len(feats))
	var o int64
	for i, s := range feats {
		e := EncodeFeature(s)
		f.Feats = append(f.Feats, e)
		if _, dup := f.ids[string(e)]; dup {
			f.ids[string(e)] = -1 // ambiguous
		} else {
			f.ids[string(e)] = i + 1
		}
		b := emptyBx()
		geomBox(s.Geom, &b)
		f.Boxes = append(f.Boxes, b)
		offs[i] = o
		o += int64(len(e))
	}
	if h.NodeSize > 0 && h.Count > 0 {
		leaves := make([]Leaf, len(feats))
		for i := range feats {
			j := i
			if perm != nil {
				j = perm[i]
			}
			leaves[i] = Leaf{f.Boxes[j], offs[j]}
		}
		f.Idx = EncodeIndex(leaves, int(h.NodeSize))
		f.Bytes = append(f.Bytes, f.Idx...)
	}
	f.IdxEnd = len(f.Bytes)
	for _, e := range f.Feats {
		f.Bytes = append(f.Bytes, e...)
		f.FeatEnd = append(f.FeatEnd, len(f.Bytes))
	}
	return f
}

// rootPos is the position of the root table in a size-prefixed buffer.
func rootPos(b []byte) uint32 {
	return 4 + binary.LittleEndian.Uint32(b[4:])
}

func uint32ToU(v uint32) fb.UOffsetT { return fb.UOffsetT(v) }

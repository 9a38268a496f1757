package main

// The FlatGeobuf tables: rows exported from AccessorsMC are built with an
// independent encoder and with the functions of the package, and read with
// the accessors of the package and independently.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	fb "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

type fieldDef struct {
	N string `json:"n"`
	K string `json:"k"`
	D int64  `json:"d"`
}
type schemaDef struct {
	Tables   map[string][]fieldDef `json:"tables"`
	Geometry []string              `json:"geometry"`
	Column   []string              `json:"column"`
}
type accRow struct {
	T    string   `json:"t"`
	Adds [][2]int `json:"adds"`
	Muts []struct {
		I  int  `json:"i"`
		V  int  `json:"v"`
		Ok bool `json:"ok"`
	} `json:"muts"`
	Get []int `json:"get"`
}

const forcedVal = 9

// scalarVal is the number stored for a value of a scalar field.
func scalarVal(f fieldDef, id int) int64 {
	if id == 0 || id == forcedVal {
		return f.D
	}
	switch f.K {
	case "bool":
		return 1 - f.D
	case "i32":
		v := []int64{7, math.MinInt32, 0x01020304}[id-1]
		if f.D == -1 && id == 3 {
			v = 0
		}
		return v
	case "u16":
		return []int64{1, 0, 0xFFFE}[id-1]
	case "u64":
		return []int64{-1<<63 | 5, -1, 1 << 32}[id-1]
	case "geomtype":
		return []int64{1, 17, 6}[id-1]
	case "coltype":
		return []int64{14, 5, 11}[id-1]
	}
	panic("no scalar: " + f.K)
}

// goVal is the value an accessor is expected to return for a scalar or text.
func goVal(f fieldDef, id int) interface{} {
	switch f.K {
	case "bool":
		return scalarVal(f, id) == 1
	case "i32":
		return int32(scalarVal(f, id))
	case "u16":
		return uint16(scalarVal(f, id))
	case "u64":
		return uint64(scalarVal(f, id))
	case "geomtype":
		return flat.GeometryType(scalarVal(f, id))
	case "coltype":
		return flat.ColumnType(scalarVal(f, id))
	}
	return nil
}

func strVal(f fieldDef, id int) string { return []string{"", "ab", f.N + "!", ""}[id] }

// vecVal is the elements of a vector of scalars, as float64 or integers.
func vecVal(k string, id int) interface{} {
	switch k {
	case "vf64":
		return [][]float64{{}, {1.5}, {math.Copysign(0, -1), math.Inf(1), 3, -1e300}, {}}[id]
	case "vu32":
		return [][]uint32{{}, {3}, {1, math.MaxUint32, 1 << 16}, {}}[id]
	case "vu64":
		return [][]uint64{{}, {3}, {1, math.MaxUint64, 1 << 33}, {}}[id]
	case "vu8":
		return [][]byte{{}, {3}, {1, 255, 0}, {}}[id]
	}
	panic("no vector: " + k)
}

// tabVal is how many tables a vector of tables has; the j-th has mark j+1.
func tabVal(id int) int { return []int{0, 1, 3, 0}[id] }

// sub builds a nested table with a mark.
func sub(b *fb.Builder, kind string, mark int) fb.UOffsetT {
	switch kind {
	case "Column":
		n := b.CreateString(fmt.Sprint("col", mark))
		b.StartObject(11)
		b.PrependUOffsetTSlot(0, n, 0)
		return b.EndObject()
	case "Crs":
		b.StartObject(6)
		b.PrependInt32Slot(1, int32(mark), 0)
		return b.EndObject()
	case "Geometry":
		b.StartObject(8)
		b.PrependByteSlot(6, byte(mark), 0)
		return b.EndObject()
	}
	panic("no table: " + kind)
}

// content builds what a field refers to.
func content(b *fb.Builder, f fieldDef, id int, start func(n int) fb.UOffsetT) fb.UOffsetT {
	switch f.K {
	case "str":
		return b.CreateString(strVal(f, id))
	case "Crs", "Geometry":
		return sub(b, f.K, id)
	case "vColumn", "vGeometry":
		n := tabVal(id)
		offs := make([]fb.UOffsetT, n)
		for j := range offs {
			offs[j] = sub(b, f.K[1:], j+1)
		}
		start(n)
		for j := n - 1; j >= 0; j-- {
			b.PrependUOffsetT(offs[j])
		}
		return b.EndVector(n)
	case "vf64":
		v := vecVal(f.K, id).([]float64)
		start(len(v))
		for j := len(v) - 1; j >= 0; j-- {
			b.PrependFloat64(v[j])
		}
		return b.EndVector(len(v))
	case "vu32":
		v := vecVal(f.K, id).([]uint32)
		start(len(v))
		for j := len(v) - 1; j >= 0; j-- {
			b.PrependUint32(v[j])
		}
		return b.EndVector(len(v))
	case "vu64":
		v := vecVal(f.K, id).([]uint64)
		start(len(v))
		for j := len(v) - 1; j >= 0; j-- {
			b.PrependUint64(v[j])
		}
		return b.EndVector(len(v))
	case "vu8":
		v := vecVal(f.K, id).([]byte)
		start(len(v))
		for j := len(v) - 1; j >= 0; j-- {
			b.PrependByte(v[j])
		}
		return b.EndVector(len(v))
	}
	return 0
}

var elemSize = map[string]int{"vf64": 8, "vu32": 4, "vu64": 8, "vu8": 1, "vColumn": 4, "vGeometry": 4}

// encodeRow builds the table of a row independently; extra adds fields
// beyond the known ones.
func encodeRow(sc *schemaDef, row *accRow, prefixed bool, extra int) []byte {
	fs := sc.Tables[row.T]
	b := fb.NewBuilder(64)
	offs := map[int]fb.UOffsetT{}
	for _, a := range row.Adds {
		f := fs[a[0]-1]
		offs[a[0]] = content(b, f, a[1], func(n int) fb.UOffsetT { return b.StartVector(elemSize[f.K], n, elemSize[f.K]) })
	}
	b.StartObject(len(fs) + extra)
	for k := 0; k < extra; k++ {
		b.PrependUint32Slot(len(fs)+k, 0xDEADBEEF, 0)
	}
	for _, a := range row.Adds {
		f, slot := fs[a[0]-1], a[0]-1
		if o := offs[a[0]]; o != 0 {
			b.PrependUOffsetTSlot(slot, o, 0)
			continue
		}
		v := scalarVal(f, a[1])
		switch f.K {
		case "bool", "geomtype", "coltype":
			b.PrependByte(byte(v))
		case "i32":
			b.PrependInt32(int32(v))
		case "u16":
			b.PrependUint16(uint16(v))
		case "u64":
			b.PrependUint64(uint64(v))
		}
		b.Slot(slot)
	}
	o := b.EndObject()
	if prefixed {
		b.FinishSizePrefixed(o)
	} else {
		b.Finish(o)
	}
	return append([]byte(nil), b.FinishedBytes()...)
}

type tableFuncs struct {
	start          func(b *fb.Builder)
	end            func(b *fb.Builder) fb.UOffsetT
	finish, sized  func(b *fb.Builder, o fb.UOffsetT)
	root, sizeRoot func(b []byte, o fb.UOffsetT) interface{}
	add            map[string]func(b *fb.Builder, o fb.UOffsetT, v int64)
	vec            map[string]func(b *fb.Builder, n int) fb.UOffsetT
}
type addOff = func(b *fb.Builder, o fb.UOffsetT)
type addFn = func(b *fb.Builder, o fb.UOffsetT, v int64)

func off(f addOff) addFn { return func(b *fb.Builder, o fb.UOffsetT, _ int64) { f(b, o) } }
func boolean(f func(*fb.Builder, bool)) addFn {
	return func(b *fb.Builder, _ fb.UOffsetT, v int64) { f(b, v == 1) }
}
func int32Of(f func(*fb.Builder, int32)) addFn {
	return func(b *fb.Builder, _ fb.UOffsetT, v int64) { f(b, int32(v)) }
}
func geomType(f func(*fb.Builder, flat.GeometryType)) addFn {
	return func(b *fb.Builder, _ fb.UOffsetT, v int64) { f(b, flat.GeometryType(v)) }
}

var tables = map[string]tableFuncs{
	"Header": {flat.HeaderStart, flat.HeaderEnd, flat.FinishHeaderBuffer, flat.FinishSizePrefixedHeaderBuffer,
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetRootAsHeader(b, o) },
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsHeader(b, o) },
		map[string]addFn{"Name": off(flat.HeaderAddName), "Envelope": off(flat.HeaderAddEnvelope), "GeometryType": geomType(flat.HeaderAddGeometryType),
			"HasZ": boolean(flat.HeaderAddHasZ), "HasM": boolean(flat.HeaderAddHasM), "HasT": boolean(flat.HeaderAddHasT), "HasTm": boolean(flat.HeaderAddHasTm),
			"Columns":       off(flat.HeaderAddColumns),
			"FeaturesCount": func(b *fb.Builder, _ fb.UOffsetT, v int64) { flat.HeaderAddFeaturesCount(b, uint64(v)) },
			"IndexNodeSize": func(b *fb.Builder, _ fb.UOffsetT, v int64) { flat.HeaderAddIndexNodeSize(b, uint16(v)) },
			"Crs":           off(flat.HeaderAddCrs), "Title": off(flat.HeaderAddTitle), "Description": off(flat.HeaderAddDescription), "Metadata": off(flat.HeaderAddMetadata)},
		map[string]func(b *fb.Builder, n int) fb.UOffsetT{"Envelope": flat.HeaderStartEnvelopeVector, "Columns": flat.HeaderStartColumnsVector}},
	"Column": {flat.ColumnStart, flat.ColumnEnd, flat.FinishColumnBuffer, flat.FinishSizePrefixedColumnBuffer,
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetRootAsColumn(b, o) },
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsColumn(b, o) },
		map[string]addFn{"Name": off(flat.ColumnAddName), "Title": off(flat.ColumnAddTitle), "Description": off(flat.ColumnAddDescription), "Metadata": off(flat.ColumnAddMetadata),
			"Type":  func(b *fb.Builder, _ fb.UOffsetT, v int64) { flat.ColumnAddType(b, flat.ColumnType(v)) },
			"Width": int32Of(flat.ColumnAddWidth), "Precision": int32Of(flat.ColumnAddPrecision), "Scale": int32Of(flat.ColumnAddScale),
			"Nullable": boolean(flat.ColumnAddNullable), "Unique": boolean(flat.ColumnAddUnique), "PrimaryKey": boolean(flat.ColumnAddPrimaryKey)}, nil},
	"Crs": {flat.CrsStart, flat.CrsEnd, flat.FinishCrsBuffer, flat.FinishSizePrefixedCrsBuffer,
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetRootAsCrs(b, o) },
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsCrs(b, o) },
		map[string]addFn{"Org": off(flat.CrsAddOrg), "Code": int32Of(flat.CrsAddCode), "Name": off(flat.CrsAddName), "Description": off(flat.CrsAddDescription),
			"Wkt": off(flat.CrsAddWkt), "CodeString": off(flat.CrsAddCodeString)}, nil},
	"Geometry": {flat.GeometryStart, flat.GeometryEnd, flat.FinishGeometryBuffer, flat.FinishSizePrefixedGeometryBuffer,
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetRootAsGeometry(b, o) },
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsGeometry(b, o) },
		map[string]addFn{"Ends": off(flat.GeometryAddEnds), "Xy": off(flat.GeometryAddXy), "Z": off(flat.GeometryAddZ), "M": off(flat.GeometryAddM),
			"T": off(flat.GeometryAddT), "Tm": off(flat.GeometryAddTm), "Type": geomType(flat.GeometryAddType), "Parts": off(flat.GeometryAddParts)},
		map[string]func(b *fb.Builder, n int) fb.UOffsetT{"Ends": flat.GeometryStartEndsVector, "Xy": flat.GeometryStartXyVector, "Z": flat.GeometryStartZVector,
			"M": flat.GeometryStartMVector, "T": flat.GeometryStartTVector, "Tm": flat.GeometryStartTmVector, "Parts": flat.GeometryStartPartsVector}},
	"Feature": {flat.FeatureStart, flat.FeatureEnd, flat.FinishFeatureBuffer, flat.FinishSizePrefixedFeatureBuffer,
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetRootAsFeature(b, o) },
		func(b []byte, o fb.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsFeature(b, o) },
		map[string]addFn{"Geometry": off(flat.FeatureAddGeometry), "Properties": off(flat.FeatureAddProperties), "Columns": off(flat.FeatureAddColumns)},
		map[string]func(b *fb.Builder, n int) fb.UOffsetT{"Properties": flat.FeatureStartPropertiesVector, "Columns": flat.FeatureStartColumnsVector}},
}

// buildRow builds the table of a row with the functions of the package.
func buildRow(sc *schemaDef, row *accRow, prefixed bool) []byte {
	fs, tf := sc.Tables[row.T], tables[row.T]
	b := fb.NewBuilder(0)
	offs := map[int]fb.UOffsetT{}
	for _, a := range row.Adds {
		f := fs[a[0]-1]
		offs[a[0]] = content(b, f, a[1], func(n int) fb.UOffsetT { return tf.vec[f.N](b, n) })
	}
	tf.start(b)
	for _, a := range row.Adds {
		f := fs[a[0]-1]
		var v int64
		if offs[a[0]] == 0 {
			v = scalarVal(f, a[1])
		}
		tf.add[f.N](b, offs[a[0]], v)
	}
	o := tf.end(b)
	if prefixed {
		tf.sized(b, o)
	} else {
		tf.finish(b, o)
	}
	return append([]byte(nil), b.FinishedBytes()...)
}

func call(x interface{}, name string, args ...interface{}) []reflect.Value {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() {
		die("no method %s of %T", name, x)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return m.Call(in)
}

// mark reads the mark of a nested table.
func markOf(kind string, x interface{}) int {
	switch kind {
	case "Column":
		n := 0
		fmt.Sscanf(string(x.(*flat.Column).Name()), "col%d", &n)
		return n
	case "Crs":
		return int(x.(*flat.Crs).Code())
	}
	return int(x.(*flat.Geometry).Type())
}

func newTable(kind string) interface{} {
	switch kind {
	case "Column":
		return new(flat.Column)
	case "Crs":
		return new(flat.Crs)
	}
	return new(flat.Geometry)
}

// checkGet compares the accessors of one field with its expected value.
func checkGet(x interface{}, f fieldDef, id int, stored bool) string {
	if v := goVal(f, id); v != nil {
		if got := call(x, f.N)[0].Interface(); got != v {
			return fmt.Sprintf("%s() = %v, want %v", f.N, got, v)
		}
		return ""
	}
	switch f.K {
	case "str":
		got := call(x, f.N)[0].Bytes()
		if string(got) != strVal(f, id) || (got != nil) != stored {
			return fmt.Sprintf("%s() = %q (nil: %v), want %q (stored: %v)", f.N, got, got == nil, strVal(f, id), stored)
		}
	case "Crs", "Geometry":
		for _, obj := range []interface{}{newTable(f.K), reflect.Zero(reflect.TypeOf(newTable(f.K))).Interface()} {
			got := call(x, f.N, obj)[0]
			if got.IsNil() == stored {
				return fmt.Sprintf("%s() is absent: %v, stored: %v", f.N, got.IsNil(), stored)
			}
			if stored && markOf(f.K, got.Interface()) != id {
				return fmt.Sprintf("%s() is table %d, want %d", f.N, markOf(f.K, got.Interface()), id)
			}
		}
	case "vColumn", "vGeometry":
		n := int(call(x, f.N+"Length")[0].Int())
		if n != tabVal(id) {
			return fmt.Sprintf("%sLength() = %d, want %d", f.N, n, tabVal(id))
		}
		for j := n - 1; j >= 0; j-- {
			obj := newTable(f.K[1:])
			if !call(x, f.N, obj, j)[0].Bool() || markOf(f.K[1:], obj) != j+1 {
				return fmt.Sprintf("%s(%d) is table %d", f.N, j, markOf(f.K[1:], obj))
			}
		}
		if !stored && call(x, f.N, newTable(f.K[1:]), 0)[0].Bool() {
			return fmt.Sprintf("%s(0) of an absent vector", f.N)
		}
	default:
		want := reflect.ValueOf(vecVal(f.K, id))
		n := int(call(x, f.N+"Length")[0].Int())
		if n != want.Len() {
			return fmt.Sprintf("%sLength() = %d, want %d", f.N, n, want.Len())
		}
		for j := 0; j < n; j++ {
			a, b := fmt.Sprint(call(x, f.N, j)[0].Interface()), fmt.Sprint(want.Index(j).Interface())
			if a != b {
				return fmt.Sprintf("%s(%d) = %s, want %s", f.N, j, a, b)
			}
		}
		if f.K == "vu8" {
			if got := call(x, f.N+"Bytes")[0].Bytes(); !bytes.Equal(got, want.Bytes()) || (got != nil) != stored {
				return fmt.Sprintf("%sBytes() = %v, want %v (stored: %v)", f.N, got, want, stored)
			}
		}
		if !stored {
			if v := call(x, f.N, 0)[0]; !v.IsZero() {
				return fmt.Sprintf("%s(0) of an absent vector is %v", f.N, v)
			}
		}
	}
	return ""
}

// rawGet reads a field at its position, independently of the package.
func rawGet(t *fb.Table, slot int, f fieldDef) interface{} {
	o := fb.UOffsetT(t.Offset(fb.VOffsetT(4 + 2*slot)))
	if o == 0 {
		return nil
	}
	switch f.K {
	case "bool", "geomtype", "coltype":
		return int64(t.GetByte(o + t.Pos))
	case "i32":
		return int64(t.GetInt32(o + t.Pos))
	case "u16":
		return int64(t.GetUint16(o + t.Pos))
	case "u64":
		return int64(t.GetUint64(o + t.Pos))
	case "str":
		return string(t.ByteVector(o + t.Pos))
	case "Crs", "Geometry":
		x := t.Indirect(o + t.Pos)
		s := &fb.Table{Bytes: t.Bytes, Pos: x}
		if f.K == "Crs" {
			return rawGet(s, 1, fieldDef{K: "i32"})
		}
		return rawGet(s, 6, fieldDef{K: "geomtype"})
	}
	n, a := t.VectorLen(o), t.Vector(o)
	out := fmt.Sprint(n, ":")
	for j := 0; j < n; j++ {
		p := a + fb.UOffsetT(j*elemSize[f.K])
		switch f.K {
		case "vf64":
			out += fmt.Sprint(" ", t.GetFloat64(p))
		case "vu32":
			out += fmt.Sprint(" ", t.GetUint32(p))
		case "vu64":
			out += fmt.Sprint(" ", t.GetUint64(p))
		case "vu8":
			out += fmt.Sprint(" ", t.GetByte(p))
		case "vColumn":
			out += fmt.Sprint(" ", rawGet(&fb.Table{Bytes: t.Bytes, Pos: t.Indirect(p)}, 0, fieldDef{K: "str"}))
		case "vGeometry":
			out += fmt.Sprint(" ", rawGet(&fb.Table{Bytes: t.Bytes, Pos: t.Indirect(p)}, 6, fieldDef{K: "geomtype"}))
		}
	}
	return out
}

// checkBuilt compares, field by field, what the package's functions stored
// with what the independent encoder stores.  A default may be stored or not.
func checkBuilt(sc *schemaDef, row *accRow, got, want []byte, pre int) string {
	g := &fb.Table{Bytes: got, Pos: fb.GetUOffsetT(got[pre:]) + fb.UOffsetT(pre)}
	w := &fb.Table{Bytes: want, Pos: fb.GetUOffsetT(want[pre:]) + fb.UOffsetT(pre)}
	if pre == 4 && int(fb.GetUint32(got)) != len(got)-4 {
		return fmt.Sprintf("size prefix %d of %d bytes", fb.GetUint32(got), len(got))
	}
	for i, f := range sc.Tables[row.T] {
		a, b := rawGet(g, i, f), rawGet(w, i, f)
		if goVal(f, 0) != nil {
			if a == nil {
				a = f.D
			}
			if b == nil {
				b = f.D
			}
		}
		if a != b {
			return fmt.Sprintf("field %s is stored as %v, want %v", f.N, a, b)
		}
	}
	// No field beyond the known ones.
	for i := len(sc.Tables[row.T]); i < len(sc.Tables[row.T])+4; i++ {
		if g.Offset(fb.VOffsetT(4+2*i)) != 0 {
			return fmt.Sprintf("something is stored at position %d", i)
		}
	}
	return ""
}

func checkAccRow(sc *schemaDef, row *accRow, r *rand.Rand) (problem string) {
	fs, tf := sc.Tables[row.T], tables[row.T]
	stored := map[int]bool{}
	for _, a := range row.Adds {
		stored[a[0]] = true
	}
	what := ""
	p := guard(func() {
		for mode := 0; mode < 4 && problem == ""; mode++ {
			prefixed := mode%2 == 1
			var b []byte
			if mode < 2 {
				what = "reading a table encoded independently"
				b = encodeRow(sc, row, prefixed, r.Intn(3))
			} else {
				what = "building a table"
				b = buildRow(sc, row, prefixed)
				if problem = checkBuilt(sc, row, b, encodeRow(sc, row, prefixed, 0), 4*(mode%2)); problem != "" {
					return
				}
				what = "reading a table built with the package"
			}
			at := r.Intn(3) * r.Intn(20)
			b = append(make([]byte, at), b...)
			var x interface{}
			if prefixed {
				x = tf.sizeRoot(b, fb.UOffsetT(at))
			} else {
				x = tf.root(b, fb.UOffsetT(at))
			}
			if mode < 2 {
				for _, m := range row.Muts {
					f := fs[m.I-1]
					before := append([]byte(nil), b...)
					if got := call(x, "Mutate"+f.N, goVal(f, m.V))[0].Bool(); got != m.Ok {
						problem = fmt.Sprintf("Mutate%s(%v) = %v", f.N, goVal(f, m.V), got)
						return
					}
					if !m.Ok && !bytes.Equal(b, before) {
						problem = fmt.Sprintf("Mutate%s of an absent field changes the table", f.N)
						return
					}
				}
			} else if len(row.Muts) > 0 {
				continue
			}
			for i, f := range fs {
				if problem = checkGet(x, f, row.Get[i], stored[i+1]); problem != "" {
					return
				}
			}
			if problem = mutateElements(x, row, fs, stored); problem != "" {
				return
			}
			if row.T == "Header" && mode == 1 {
				what = "summary of a header"
				if problem = checkHeaderText(sc, x.(*flat.Header), row); problem != "" {
					return
				}
			}
		}
	})
	if p != nil {
		return fmt.Sprintf("%s %v: %v", what, row, p)
	}
	if problem != "" {
		return fmt.Sprintf("%s %s with fields %v: %s", what, row.T, names(fs, row.Adds), problem)
	}
	return ""
}

func names(fs []fieldDef, adds [][2]int) (out []string) {
	for _, a := range adds {
		out = append(out, fmt.Sprintf("%s=%d", fs[a[0]-1].N, a[1]))
	}
	return
}

// mutateElements overwrites one element of each vector of numbers.
func mutateElements(x interface{}, row *accRow, fs []fieldDef, stored map[int]bool) string {
	for i, f := range fs {
		if !strings.HasPrefix(f.K, "v") || f.K == "vColumn" || f.K == "vGeometry" {
			continue
		}
		want := reflect.ValueOf(vecVal(f.K, row.Get[i]))
		zero := reflect.New(want.Type().Elem()).Elem()
		if !stored[i+1] {
			if call(x, "Mutate"+f.N, 0, zero.Interface())[0].Bool() {
				return "Mutate" + f.N + " of an absent vector"
			}
			continue
		}
		if n := want.Len(); n > 0 {
			j := n / 2
			if f.K == "vf64" {
				zero.SetFloat(-77.25)
			} else {
				zero.SetUint(77)
			}
			if !call(x, "Mutate"+f.N, j, zero.Interface())[0].Bool() {
				return fmt.Sprintf("Mutate%s(%d) fails", f.N, j)
			}
			for k := 0; k < n; k++ {
				w := want.Index(k).Interface()
				if k == j {
					w = zero.Interface()
				}
				if got := call(x, f.N, k)[0].Interface(); fmt.Sprint(got) != fmt.Sprint(w) {
					return fmt.Sprintf("%s(%d) = %v after Mutate%s(%d, %v), want %v", f.N, k, got, f.N, j, zero, w)
				}
			}
		}
	}
	return ""
}

// checkHeaderText looks for the stored fields in the summary.
func checkHeaderText(sc *schemaDef, h *flat.Header, row *accRow) string {
	s := flatgeobuf.HeaderString(h)
	if strings.HasPrefix(s, "error: ") {
		return "summary of a good header: " + s
	}
	for i, f := range sc.Tables["Header"] {
		id := row.Get[i]
		w := ""
		switch {
		case f.K == "str":
			w = strVal(f, id)
		case f.N == "GeometryType":
			w = sc.Geometry[scalarVal(f, id)]
		case f.N == "FeaturesCount" && id > 0, f.N == "IndexNodeSize":
			w = fmt.Sprint(uint64(scalarVal(f, id)))
			if w == "0" {
				w = ""
			}
		case f.N == "Crs" && id > 0:
			w = fmt.Sprint(id)
		}
		if !strings.Contains(s, w) {
			return fmt.Sprintf("summary %q does not show %s %s", s, f.N, w)
		}
	}
	return ""
}

func runAccessors(edges, schema, out, tier string, seed int64) {
	rep := newReport()
	sc := &schemaDef{}
	readRows(schema, func(b []byte) {
		if err := json.Unmarshal(b, sc); err != nil {
			die("schema: %v", err)
		}
	})
	var rows []*accRow
	readRows(edges, func(b []byte) {
		row := &accRow{}
		if err := json.Unmarshal(b, row); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, row)
	})
	// The names and numbers of the types.
	for i, n := range sc.Geometry {
		if got := flat.GeometryType(i).String(); got != n || flat.EnumNamesGeometryType[flat.GeometryType(i)] != n || flat.EnumValuesGeometryType[n] != flat.GeometryType(i) {
			rep.violate(M{"problem": fmt.Sprintf("geometry type %d is named %s, want %s", i, got, n)})
		}
	}
	for i, n := range sc.Column {
		if got := flat.ColumnType(i).String(); got != n || flat.EnumNamesColumnType[flat.ColumnType(i)] != n || flat.EnumValuesColumnType[n] != flat.ColumnType(i) {
			rep.violate(M{"problem": fmt.Sprintf("column type %d is named %s, want %s", i, got, n)})
		}
	}
	if len(flat.EnumNamesGeometryType) != len(sc.Geometry) || len(flat.EnumNamesColumnType) != len(sc.Column) {
		rep.violate(M{"problem": "there are more or less types than in the schema"})
	}
	parallel(len(rows), 8, func(i int) {
		if rep.stop() {
			return
		}
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		if p := checkAccRow(sc, rows[i], r); p != "" {
			rep.violate(M{"problem": p})
		}
		rep.eval.Add(1)
	})
	rep.count("tables built and read", 4*int64(len(rows)))
	rep.sample(M{"table": rows[len(rows)/2]}, 1)
	rep.write(out)
}

package main

// Property values: rows exported from PropsMC and random sessions recorded
// for PropsTrace.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

// Column types, as numbered in the FlatGeobuf schema.
const (
	tByte = iota
	tUByte
	tBool
	tShort
	tUShort
	tInt
	tUInt
	tLong
	tULong
	tFloat
	tDouble
	tString
	tJson
	tDateTime
	tBinary
	numTypes
)

func isVar(t int) bool { return t >= tString && t <= tBinary }

func typeWidth(t int) int {
	switch t {
	case tByte, tUByte, tBool:
		return 1
	case tShort, tUShort:
		return 2
	case tInt, tUInt, tFloat:
		return 4
	}
	return 8
}

func limbs(u uint64, n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = int(u >> (16 * uint(i)) & 0xffff)
	}
	return v
}

func numLimbs(t int) int { return (typeWidth(t) + 1) / 2 }

func unlimb(v []int) (u uint64) {
	for i, x := range v {
		u |= uint64(x) << (16 * uint(i))
	}
	return u
}

func bytesOf(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func intsOf(b []byte) []int {
	v := make([]int, len(b))
	for i, x := range b {
		v[i] = int(x)
	}
	return v
}

// goValue is the Go value of type t which the specification writes v.
func goValue(t int, v []int) interface{} {
	if isVar(t) {
		if t == tString || t == tDateTime {
			return string(bytesOf(v))
		}
		return bytesOf(v)
	}
	u := unlimb(v)
	switch t {
	case tByte:
		return int8(u)
	case tUByte:
		return uint8(u)
	case tBool:
		return u != 0
	case tShort:
		return int16(u)
	case tUShort:
		return uint16(u)
	case tInt:
		return int32(u)
	case tUInt:
		return uint32(u)
	case tLong:
		return int64(u)
	case tULong:
		return u
	case tFloat:
		return math.Float32frombits(uint32(u))
	}
	return math.Float64frombits(u)
}

// specValue writes a Go value of type t as the specification does; ok is
// false if it does not have the Go type of t.
func specValue(t int, x interface{}) (v []int, ok bool) {
	n := numLimbs(t)
	switch t {
	case tByte:
		y, ok := x.(int8)
		return limbs(uint64(uint8(y)), n), ok
	case tUByte:
		y, ok := x.(uint8)
		return limbs(uint64(y), n), ok
	case tBool:
		y, ok := x.(bool)
		if y {
			return []int{1}, ok
		}
		return []int{0}, ok
	case tShort:
		y, ok := x.(int16)
		return limbs(uint64(uint16(y)), n), ok
	case tUShort:
		y, ok := x.(uint16)
		return limbs(uint64(y), n), ok
	case tInt:
		y, ok := x.(int32)
		return limbs(uint64(uint32(y)), n), ok
	case tUInt:
		y, ok := x.(uint32)
		return limbs(uint64(y), n), ok
	case tLong:
		y, ok := x.(int64)
		return limbs(uint64(y), n), ok
	case tULong:
		y, ok := x.(uint64)
		return limbs(y, n), ok
	case tFloat:
		y, ok := x.(float32)
		return limbs(uint64(math.Float32bits(y)), n), ok
	case tDouble:
		y, ok := x.(float64)
		return limbs(math.Float64bits(y), n), ok
	case tString, tDateTime:
		y, ok := x.(string)
		return intsOf([]byte(y)), ok
	}
	y, ok := x.([]byte)
	return intsOf(y), ok
}

func propWrite(w *flatgeobuf.PropWriter, t int, v []int) (int, error) {
	switch x := goValue(t, v).(type) {
	case int8:
		return w.WriteByte(x)
	case uint8:
		return w.WriteUByte(x)
	case bool:
		return w.WriteBool(x)
	case int16:
		return w.WriteShort(x)
	case uint16:
		return w.WriteUShort(x)
	case int32:
		return w.WriteInt(x)
	case uint32:
		return w.WriteUInt(x)
	case int64:
		return w.WriteLong(x)
	case uint64:
		return w.WriteULong(x)
	case float32:
		return w.WriteFloat(x)
	case float64:
		return w.WriteDouble(x)
	case string:
		return w.WriteString(x)
	case []byte:
		keep := append([]byte(nil), x...)
		n, err := w.WriteBinary(x)
		if !bytes.Equal(x, keep) {
			panic("WriteBinary changed its argument")
		}
		return n, err
	}
	panic("no such type")
}

func propRead(r *flatgeobuf.PropReader, t int) (x interface{}, err error) {
	switch t {
	case tByte:
		x, err = r.ReadByte()
	case tUByte:
		x, err = r.ReadUByte()
	case tBool:
		x, err = r.ReadBool()
	case tShort:
		x, err = r.ReadShort()
	case tUShort:
		x, err = r.ReadUShort()
	case tInt:
		x, err = r.ReadInt()
	case tUInt:
		x, err = r.ReadUInt()
	case tLong:
		x, err = r.ReadLong()
	case tULong:
		x, err = r.ReadULong()
	case tFloat:
		x, err = r.ReadFloat()
	case tDouble:
		x, err = r.ReadDouble()
	case tString, tDateTime:
		x, err = r.ReadString()
	default:
		x, err = r.ReadBinary()
	}
	return
}

const knownReadInt = "readint-low-byte"

// sameValue compares a value read with the right one; dev tells that it is
// the known deviation of ReadInt.
func sameValue(t int, got, want []int) (same, dev bool) {
	if sameInts(got, want) {
		return true, false
	}
	if t == tInt && sameInts(got, []int{want[0] & 0xff, 0}) {
		return true, true
	}
	return false, false
}

// goSchema is a schema which is not a FlatBuffers table.
type goSchema struct{ hdr *flat.Header }

func (s goSchema) ColumnsLength() int                   { return s.hdr.ColumnsLength() }
func (s goSchema) Columns(obj *flat.Column, j int) bool { return s.hdr.Columns(obj, j) }

func schemaCols(types []int) []Column {
	cols := make([]Column, len(types))
	for i, t := range types {
		cols[i] = Column{Name: "c" + strconv.Itoa(i), Type: byte(t)}
	}
	return cols
}

// schemaOf returns the schema with the given column types in one of three
// forms.
func schemaOf(types []int, form int) flatgeobuf.Schema {
	cols := schemaCols(types)
	if form == 0 {
		return flat.GetSizePrefixedRootAsFeature(EncodeFeature(FeatSpec{Columns: cols}), 0)
	}
	h := flat.GetSizePrefixedRootAsHeader(EncodeHeader(HeaderSpec{Columns: cols}), 0)
	if form == 1 {
		return h
	}
	return goSchema{h}
}

// wideSchemaOf returns a schema of n columns which repeat the given types.
func wideSchemaOf(types []int, n, form int) flatgeobuf.Schema {
	all := make([]int, n)
	for i := range all {
		all[i] = types[i%len(types)]
	}
	return schemaOf(all, form)
}

func colIndex(c *flat.Column) int {
	s := string(c.Name())
	if len(s) < 2 || s[0] != 'c' {
		return -1
	}
	n, err := strconv.Atoi(s[1:])
	if err != nil {
		return -1
	}
	return n
}

type propPair struct {
	C int   `json:"c"`
	V []int `json:"v"`
}
type propRow struct {
	Schema []int      `json:"schema"`
	Xs     []propPair `json:"xs"`
	B      []int      `json:"b"`
	Cuts   []int      `json:"cuts"`
	Wrong  []struct {
		B  []int `json:"b"`
		Ok bool  `json:"ok"`
	} `json:"wrong"`
}

// onlyReader hides everything but Read.
type onlyReader struct{ io.Reader }

func propStream(b []byte, frag int, r *rand.Rand) io.Reader {
	s := &Stream{rnd: r}
	s.reset(b, frag, -1, false)
	return onlyReader{s}
}

func checkPropRow(rep *Report, prop string, row *propRow, r *rand.Rand) (problem string) {
	if p := guard(func() {
		want := bytesOf(row.B)
		if prop == "P14" {
			problem = checkSections(rep, row, want, r)
			return
		}
		// Writing.
		var buf bytes.Buffer
		w := flatgeobuf.NewPropWriter(&buf)
		for _, x := range row.Xs {
			before := buf.Len()
			n, err := w.WriteUShort(uint16(x.C))
			m := 0
			if err == nil {
				m, err = propWrite(w, row.Schema[x.C], x.V)
			}
			if err != nil || n != 2 || m != buf.Len()-before-2 {
				problem = fmt.Sprintf("writing %v: counts %d and %d, %d bytes emitted, error %v", x, n, m, buf.Len()-before, err)
				return
			}
		}
		if !bytes.Equal(buf.Bytes(), want) {
			problem = fmt.Sprintf("encoding of %v: % x, want % x", row.Xs, buf.Bytes(), want)
			return
		}
		// Reading value by value.
		for frag := 0; frag < numFrag; frag++ {
			pr := flatgeobuf.NewPropReader(propStream(want, frag, r))
			for _, x := range row.Xs {
				c, err := pr.ReadUShort()
				if err != nil || int(c) != x.C {
					problem = fmt.Sprintf("column index read as %d, want %d (%v)", c, x.C, err)
					return
				}
				y, err := propRead(pr, row.Schema[x.C])
				if err != nil {
					problem = fmt.Sprintf("reading a value of type %d: %v", row.Schema[x.C], err)
					return
				}
				got, ok := specValue(row.Schema[x.C], y)
				same, dev := sameValue(row.Schema[x.C], got, x.V)
				if !ok || !same {
					problem = fmt.Sprintf("value %v of type %d read as %v (%T)", x.V, row.Schema[x.C], y, y)
					return
				}
				if dev {
					rep.known(knownReadInt)
				}
			}
			if b, err := pr.ReadUByte(); err == nil {
				problem = fmt.Sprintf("a byte %d is left over", b)
				return
			}
		}
	}); p != nil {
		return fmt.Sprint("panic: ", p)
	}
	return problem
}

// checkSections decodes whole, cut and wrong sections.
func checkSections(rep *Report, row *propRow, want []byte, r *rand.Rand) (problem string) {
	for form := 0; form < 3; form++ {
		schema := schemaOf(row.Schema, form)
		for k, n := range row.Cuts {
			if n == 99 {
				n = -1
			}
			if problem = checkSection(rep, schema, row, want[:k], n, r.Intn(numFrag), r); problem != "" {
				return problem
			}
		}
		for _, x := range row.Wrong {
			if x.Ok {
				die("row says that %v is a section of %v", x.B, row.Schema)
			}
			if problem = checkSection(rep, schema, row, bytesOf(x.B), -1, r.Intn(numFrag), r); problem != "" {
				return problem
			}
		}
	}
	return ""
}

// checkSection decodes b; n pairs are expected, or an error if n < 0.
func checkSection(rep *Report, schema flatgeobuf.Schema, row *propRow, b []byte, n, frag int, r *rand.Rand) string {
	vals, err := flatgeobuf.NewPropReader(propStream(b, frag, r)).ReadSchema(schema)
	if n < 0 {
		if err == nil {
			return fmt.Sprintf("section % x of schema %v decoded without error to %d values", b, row.Schema, len(vals))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("section % x of schema %v: %v", b, row.Schema, err)
	}
	if len(vals) != n {
		return fmt.Sprintf("section % x of schema %v decoded to %d values, want %d", b, row.Schema, len(vals), n)
	}
	for i := range vals {
		x, t := row.Xs[i], row.Schema[row.Xs[i].C]
		if int(vals[i].ColIndex) != x.C || int(vals[i].Type) != t || colIndex(&vals[i].Col) != x.C {
			return fmt.Sprintf("value %d has column %d, type %d, name %s; want column %d of type %d", i, vals[i].ColIndex, vals[i].Type, vals[i].Col.Name(), x.C, t)
		}
		got, ok := specValue(t, vals[i].Value)
		same, dev := sameValue(t, got, x.V)
		if !ok || !same {
			return fmt.Sprintf("value %v of type %d decoded as %v (%T)", x.V, t, vals[i].Value, vals[i].Value)
		}
		if dev {
			rep.known(knownReadInt)
		}
	}
	return ""
}

func runPropRows(prop, edges, out, tier string, seed int64) {
	rep := newReport()
	fh, err := os.Open(edges)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	var rows []*propRow
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		row := new(propRow)
		if err := json.Unmarshal(sc.Bytes(), row); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, row)
	}
	parallel(len(rows), 8, func(i int) {
		if rep.stop() {
			return
		}
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		if p := checkPropRow(rep, prop, rows[i], r); p != "" {
			rep.violate(M{"problem": p, "row": rows[i]})
		}
	})
	n := 0
	for _, x := range rows {
		n += 3 * (len(x.Cuts) + len(x.Wrong))
	}
	rep.count("property sections decoded", int64(n))
	rep.Eval = int64(n)
	rep.sample(M{"schema": rows[len(rows)/2].Schema, "xs": rows[len(rows)/2].Xs}, 1)
	if prop == "P13" {
		propSweep(rep, tier, seed)
	}
	rep.write(out)
}

// specBytes is the encoding of a value, as in Props.tla.
func specBytes(t int, v []int) []byte {
	if isVar(t) {
		return append(binary.LittleEndian.AppendUint32(nil, uint32(len(v))), bytesOf(v)...)
	}
	return binary.LittleEndian.AppendUint64(nil, unlimb(v))[:typeWidth(t)]
}

// some is the beginning of a value.
func some(v []int) []int { return v[:min(40, len(v))] }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// propSweep: identity of writing and reading over whole ranges of values, and
// for large texts.
func propSweep(rep *Report, tier string, seed int64) {
	one := func(t int, v []int) {
		if rep.stop() {
			return
		}
		if p := guard(func() {
			var buf bytes.Buffer
			n, err := propWrite(flatgeobuf.NewPropWriter(&buf), t, v)
			if err != nil || n != buf.Len() {
				rep.violate(M{"problem": fmt.Sprintf("writing %v of type %d: count %d, %d bytes, %v", some(v), t, n, buf.Len(), err)})
				return
			}
			want := specBytes(t, v)
			if !bytes.Equal(buf.Bytes(), want) {
				rep.violate(M{"problem": fmt.Sprintf("value %v of type %d is written as % x", some(v), t, buf.Bytes()[:min(40, buf.Len())])})
				return
			}
			x, err := propRead(flatgeobuf.NewPropReader(&buf), t)
			if err != nil {
				rep.violate(M{"problem": fmt.Sprintf("reading %v of type %d: %v", some(v), t, err)})
				return
			}
			got, ok := specValue(t, x)
			same, dev := sameValue(t, got, v)
			if !ok || !same || buf.Len() != 0 {
				rep.violate(M{"problem": fmt.Sprintf("value %v of type %d is read as %v (%T), %d bytes left", some(v), t, some(got), x, buf.Len())})
			}
			if dev {
				rep.known(knownReadInt)
			}
			if !isVar(t) {
				return
			}
			// Cut where programs like to cut what they read.
			for _, step := range []int{512, 1000, 1024, 4096, 8096, 8192, 1 << 16, 1 << 20} {
				for k := 1; k < 9 && k*step < len(v); k++ {
					for _, frag := range []int{fragWhole, fragEOF} {
						st := &Stream{rnd: rand.New(rand.NewSource(1))}
						st.reset(want[:4+k*step], frag, -1, false)
						if x, err := propRead(flatgeobuf.NewPropReader(onlyReader{st}), t); err == nil {
							got, _ := specValue(t, x)
							rep.violate(M{"problem": fmt.Sprintf("text of %d bytes, cut after %d, is read as %d bytes without an error", len(v), k*step, len(got))})
						}
					}
				}
			}
		}); p != nil {
			rep.violate(M{"problem": fmt.Sprintf("value %v of type %d: panic: %v", some(v), t, p)})
		}
	}
	type job struct {
		t int
		v []int
	}
	var jobs []job
	for t := 0; t < tString; t++ {
		w := typeWidth(t)
		switch {
		case t == tBool:
			jobs = append(jobs, job{t, []int{0}}, job{t, []int{1}})
		case w == 1:
			for u := 0; u < 256; u++ {
				jobs = append(jobs, job{t, []int{u}})
			}
		case w == 2:
			for u := 0; u < 65536; u++ {
				jobs = append(jobs, job{t, []int{u}})
			}
		default:
			// Every value of every byte over five backgrounds; every bit; pairs of bits.
			for _, bg := range []uint64{0, ^uint64(0), 0x0102030405060708, 0x8080808080808080, 0x7ff0000000000000} {
				for k := 0; k < w; k++ {
					for x := 0; x < 256; x++ {
						u := bg&^(0xff<<(8*uint(k))) | uint64(x)<<(8*uint(k))
						jobs = append(jobs, job{t, limbs(u, w/2)})
					}
				}
			}
			for i := 0; i < 8*w; i++ {
				for j := 0; j <= i; j++ {
					jobs = append(jobs, job{t, limbs(1<<uint(i)|1<<uint(j), w/2)})
				}
			}
			r := rand.New(rand.NewSource(seed + int64(t)))
			n := 20000
			if tier == "thorough" {
				n = 2000000
			}
			for i := 0; i < n; i++ {
				jobs = append(jobs, job{t, limbs(r.Uint64()>>uint(r.Intn(64)), w/2)})
			}
		}
	}
	r := rand.New(rand.NewSource(seed + 99))
	text := make([]int, 1<<24+300)
	for i := range text {
		text[i] = r.Intn(256)
	}
	for t := tString; t <= tBinary; t++ {
		for _, n := range []int{0, 1, 127, 128, 255, 256, 257, 508, 512, 1020, 1024, 4092, 4095, 4096, 4100, 8096, 8192, 16384, 32764, 32767, 32768, 65532,
			65535, 65536, 65537, 65540, 1 << 17, 1<<20 - 4, 1<<20 - 1, 1 << 20, 1<<20 + 3, 1<<20 + 4, 2 << 20, 3 << 20, 3<<20 + 1} {
			jobs = append(jobs, job{t, text[:n]})
		}
	}
	jobs = append(jobs, job{tString, text}, job{tBinary, text})
	parallel(len(jobs), 8, func(i int) { one(jobs[i].t, jobs[i].v) })
	rep.count("values written and read", int64(len(jobs)))
	rep.Eval += int64(len(jobs))
}

// propSink accepts bytes until it has accepted limit, then fails.
type propSink struct {
	buf   []byte
	limit int // -1: never fails
	part  bool
	once  bool
	hit   bool
	took  int // bytes accepted since the last call of mark
}

func (s *propSink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.buf)+len(p) > s.limit && !(s.once && s.hit) {
		n := 0
		if s.part && s.limit > len(s.buf) {
			n = s.limit - len(s.buf)
		}
		s.hit = true
		s.buf = append(s.buf, p[:n]...)
		s.took += n
		return n, errInjected
	}
	s.buf = append(s.buf, p...)
	s.took += len(p)
	return len(p), nil
}

func randPropValue(r *rand.Rand, t int) []int {
	if isVar(t) {
		n := r.Intn(6)
		switch r.Intn(12) {
		case 0:
			n = 250 + r.Intn(12)
		case 1:
			n = r.Intn(700)
		}
		v := make([]int, n)
		for i := range v {
			v[i] = r.Intn(256)
		}
		return v
	}
	if t == tBool {
		return []int{r.Intn(2)}
	}
	var u uint64
	w := uint(8 * typeWidth(t))
	switch r.Intn(5) {
	case 0:
		u = uint64(r.Intn(3) - 1)
	case 1:
		u = 1 << uint(r.Intn(64))
	case 2:
		u = r.Uint64() >> uint(r.Intn(64))
	case 3: // NaN payloads, infinities
		u = 0x7ff0000000000000 | r.Uint64()>>uint(11+r.Intn(53))
		if w == 32 {
			u = 0x7f800000 | uint64(r.Uint32()>>uint(9+r.Intn(23)))
		}
		u |= uint64(r.Intn(2)) << (w - 1)
	default:
		u = r.Uint64()
	}
	if w < 64 {
		u &= 1<<w - 1
	}
	return limbs(u, numLimbs(t))
}

func propSession(rep *Report, prop string, tr *Trace, r *rand.Rand) int {
	calls := 0
	tr.emit(M{"e": "begin"})
	sink := &propSink{limit: -1}
	total := 1 + r.Intn(60)
	if r.Intn(3) == 0 && (prop == "P13" || prop == "P09") {
		sink.limit, sink.part, sink.once = r.Intn(total), r.Intn(2) == 0, r.Intn(2) == 0
	}
	w := flatgeobuf.NewPropWriter(sink)
	write := func(t int, v []int) {
		calls++
		if prop != "P13" && prop != "P09" {
			// Only reading is of interest: the bytes come from elsewhere.
			b := specBytes(t, v)
			sink.buf = append(sink.buf, b...)
			tr.emit(M{"e": "write", "t": t, "v": v, "n": len(b), "ok": true, "fault": false, "injected": false, "took": len(b)})
			return
		}
		sink.took = 0
		hadHit := sink.hit
		n, err := propWrite(w, t, v)
		fault := err != nil
		if sink.hit && !hadHit {
			fault = true
		}
		tr.emit(M{"e": "write", "t": t, "v": v, "n": n, "ok": err == nil, "fault": fault, "injected": errors.Is(err, errInjected), "took": sink.took})
	}
	// A schema, and the values in it.
	types := make([]int, 1+r.Intn(5))
	if r.Intn(8) == 0 {
		types = make([]int, 256+r.Intn(300))
	}
	cols := len(types)
	for i := range types {
		types[i] = r.Intn(numTypes)
		if r.Intn(60) == 0 {
			types[i] = numTypes + r.Intn(240)
		}
	}
	section := prop != "P13" && (prop == "P14" || r.Intn(2) == 0)
	n := r.Intn(9)
	if section && r.Intn(20) == 0 {
		// Many columns, which repeat these types.
		cols = []int{1023, 1024, 1025, 4096, 5000, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000}[r.Intn(13)]
		if r.Intn(4) == 0 {
			n = 20 + r.Intn(100)
		}
	} else if section && r.Intn(100) == 0 {
		// Many values.
		n = 1000 + r.Intn(100)
		types = []int{tByte, tBool, tUByte, tShort}
		cols = len(types)
	}
	column := func() int {
		c := r.Intn(cols)
		if cols > 600 && r.Intn(2) == 0 {
			c = []int{0, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, cols - 1, cols - 2}[r.Intn(14)]
			if c >= cols {
				c = cols - 1
			}
		}
		if c > 65535 {
			c = 65535
		}
		return c
	}
	type step struct{ t int }
	var steps []step
	for i := 0; i < n; i++ {
		if section {
			c := column()
			t := types[c%len(types)]
			if t >= numTypes {
				if r.Intn(2) == 0 {
					continue
				}
				write(tUShort, []int{c})
				write(tUByte, []int{r.Intn(256)})
				steps = append(steps, step{tUShort}, step{tUByte})
				continue
			}
			if bad := cols + r.Intn(3)*256; n < 200 && bad < 65536 && r.Intn(25) == 0 {
				c = bad
				write(tUShort, []int{c})
				write(tByte, []int{0})
				steps = append(steps, step{tUShort}, step{tByte})
				continue
			}
			write(tUShort, []int{c})
			write(t, randPropValue(r, t))
			steps = append(steps, step{tUShort}, step{t})
		} else {
			t := r.Intn(numTypes)
			write(t, randPropValue(r, t))
			steps = append(steps, step{t})
		}
	}
	tr.emit(M{"e": "bytes", "b": intsOf(sink.buf)})
	if prop == "P09" {
		return calls
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		cut := len(sink.buf)
		if r.Intn(2) == 0 {
			cut = r.Intn(cut + 1)
		}
		// The reader is on a cut copy from here on, and so are later readers.
		data := append([]byte(nil), sink.buf[:cut]...)
		sink.buf = sink.buf[:cut]
		frag := r.Intn(numFrag)
		st := &Stream{rnd: r}
		st.reset(data, frag, -1, false)
		pr := flatgeobuf.NewPropReader(onlyReader{st})
		tr.emit(M{"e": "reader", "cut": cut})
		failed, whole := false, section && (prop == "P14" || r.Intn(3) > 0)
		for i := 0; !failed && !whole; i++ {
			t := r.Intn(numTypes)
			if i < len(steps) && r.Intn(12) > 0 {
				t = steps[i].t
			} else if i >= len(steps)+3 {
				break
			}
			rest := data[st.pos:]
			if t == tBool && len(rest) > 0 && rest[0] > 1 {
				t = tUByte
			}
			calls++
			x, err := propRead(pr, t)
			if err != nil {
				tr.emit(M{"e": "read", "t": t, "ok": false})
				failed = true
				continue
			}
			got, ok := specValue(t, x)
			if !ok {
				die("type of %v", x)
			}
			e := M{"e": "read", "t": t, "ok": true, "v": got, "dev": false}
			if t == tInt && len(rest) >= 4 {
				if same, dev := sameValue(t, got, limbs(uint64(binary.LittleEndian.Uint32(rest)), 2)); same && dev {
					e["dev"] = true
					rep.known(knownReadInt)
				}
			}
			tr.emit(e)
			if r.Intn(30) == 0 {
				break
			}
		}
		if failed || !section || r.Intn(5) == 0 {
			continue
		}
		rest := data[st.pos:]
		if !whole && !tameSection(types, cols, rest) {
			continue
		}
		types1, cols1 := types, cols
		for more := r.Intn(4); ; more-- {
			form := r.Intn(3)
			vals, err := pr.ReadSchema(wideSchemaOf(types, cols, form))
			calls++
			e := M{"e": "section", "schema": types, "cols": cols, "ok": err == nil, "left": len(data) - int(st.pos), "xs": []M{}}
			if err == nil {
				xs := make([]M, len(vals))
				q := 0 // position of the value in rest
				for i := range vals {
					t := int(vals[i].Type)
					got, ok := specValue(t, vals[i].Value)
					if !ok {
						rep.violate(M{"problem": fmt.Sprintf("column type %d decoded as %T", t, vals[i].Value)})
						return calls
					}
					x := M{"c": int(vals[i].ColIndex), "t": t, "col": colIndex(&vals[i].Col), "v": got, "dev": false}
					q += 2
					if t == tInt && q+4 <= len(rest) {
						if same, dev := sameValue(t, got, limbs(uint64(binary.LittleEndian.Uint32(rest[q:])), 2)); same && dev {
							x["dev"] = true
							rep.known(knownReadInt)
						}
					}
					if isVar(t) {
						q += 4 + len(got)
					} else {
						q += typeWidth(t)
					}
					xs[i] = x
				}
				e["xs"] = xs
			}
			tr.emit(e)
			if err != nil || more <= 0 || n > 100 || cols > 600 {
				break
			}
			// Another section follows, of another schema.
			types = make([]int, 1+r.Intn(4))
			for i := range types {
				types[i] = r.Intn(numTypes)
			}
			cols = len(types)
			var b []byte
			for i := r.Intn(4); i > 0; i-- {
				c := r.Intn(cols)
				b = append(append(b, specBytes(tUShort, []int{c})...), specBytes(types[c], randPropValue(r, types[c]))...)
			}
			if r.Intn(4) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			data = append(data, b...)
			st.data = data
			tr.emit(M{"e": "feed", "b": intsOf(b)})
			rest = data[st.pos:]
		}
		// Later readers are on the first section only.
		types, cols = types1, cols1
	}
	return calls
}

// tameSection tells whether decoding b stays clear of Booleans that are neither
// 0 nor 1.
func tameSection(types []int, cols int, b []byte) bool {
	for len(b) >= 2 {
		c := int(binary.LittleEndian.Uint16(b))
		b = b[2:]
		if c >= cols || types[c%len(types)] >= numTypes {
			return true
		}
		t := types[c%len(types)]
		if t == tBool && len(b) > 0 && b[0] > 1 {
			return false
		}
		n := typeWidth(t)
		if isVar(t) {
			if len(b) < 4 {
				return true
			}
			c := binary.LittleEndian.Uint32(b)
			if int64(c) > int64(len(b)) {
				return true
			}
			n = 4 + int(c)
		}
		if n > len(b) {
			return true
		}
		b = b[n:]
	}
	return true
}

func runPropRandom(prop, out, tier string, seed int64) {
	rep := newReport()
	files, sessions := 8, 300
	if tier == "thorough" {
		files, sessions = 48, 600
	}
	for f := 0; f < files; f++ {
		rep.Traces = append(rep.Traces, fmt.Sprintf("props%d.ndjson", f))
	}
	parallel(files, 8, func(f int) {
		r := rand.New(rand.NewSource(seed*7919 + int64(f)))
		tr := newTrace(out, rep.Traces[f])
		defer tr.close()
		calls := 0
		for i := 0; i < sessions && !rep.stop(); i++ {
			if p := guard(func() { calls += propSession(rep, prop, tr, r) }); p != nil {
				rep.violate(M{"problem": fmt.Sprint("panic in a property session: ", p)})
			}
		}
		rep.count("property calls recorded", int64(calls))
	})
	rep.write(out)
}

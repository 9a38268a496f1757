package main

// Texts of features and headers: rows exported from SummaryMC, random
// features recorded for SummaryTrace, and damaged tables.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

type sumGeom struct {
	Type  int        `json:"type"`
	XY    []int      `json:"xy"`
	Parts []*sumGeom `json:"parts"`
}
type sumCol struct {
	Name int `json:"name"`
	Type int `json:"type"`
}
type sumFeature struct {
	Geoms []*sumGeom `json:"geoms"`
	Own   []sumCol   `json:"own"`
	Given []sumCol   `json:"given"`
	B     []int      `json:"b"`
}
type sumRow struct {
	F sumFeature `json:"f"`
	S struct {
		Fail   bool  `json:"fail"`
		Type   int   `json:"type"`
		Bounds []int `json:"bounds"`
		Props  []struct {
			Name int   `json:"name"`
			Type int   `json:"type"`
			V    []int `json:"v"`
		} `json:"props"`
	} `json:"s"`
}

// coord places a rank on the line; the values survive printing with eight
// digits.
type coordScale struct{ a, b float64 }

func (c coordScale) f(i int) float64 { return c.a*float64(i) + c.b }

var coordScales = []coordScale{{1, 0}, {0.25, -1000}, {1e20, 0}, {1e-9, 0}, {-0.5, 3}}

func (g *sumGeom) real(c coordScale) *Geom {
	o := &Geom{Type: byte(g.Type)}
	for _, v := range g.XY {
		o.XY = append(o.XY, c.f(v))
	}
	for _, p := range g.Parts {
		o.Parts = append(o.Parts, p.real(c))
	}
	return o
}

func sumCols(cs []sumCol) (out []Column) {
	for _, c := range cs {
		out = append(out, Column{Name: colName(c.Name), Type: byte(c.Type)})
	}
	return
}

func colName(i int) string { return "name" + strconv.Itoa(i) + "_" }

// realFeature encodes a feature and the supplied schema.
func (f *sumFeature) realFeature(c coordScale, form int) (*flat.Feature, flatgeobuf.Schema) {
	s := FeatSpec{Props: bytesOf(f.B), Columns: sumCols(f.Own)}
	if len(f.B) == 0 && form%2 == 0 {
		s.Props = nil
	}
	if len(f.Geoms) > 0 {
		s.Geom = f.Geoms[0].real(c)
	}
	ft := flat.GetSizePrefixedRootAsFeature(EncodeFeature(s), 0)
	var schema flatgeobuf.Schema
	if len(f.Given) > 0 || form > 0 {
		h := flat.GetSizePrefixedRootAsHeader(EncodeHeader(HeaderSpec{Columns: sumCols(f.Given)}), 0)
		switch form {
		case 0, 1:
			schema = h
		case 2:
			schema = goSchema{h}
		case 3:
			schema = flat.GetSizePrefixedRootAsFeature(EncodeFeature(FeatSpec{Columns: sumCols(f.Given)}), 0)
		}
	}
	return ft, schema
}

const sumInf = 1000000000

// boundsText is how a box of ranks is shown.
func boundsText(b []int, c coordScale) string {
	x0, y0, x1, y1 := c.f(b[0]), c.f(b[1]), c.f(b[2]), c.f(b[3])
	if c.a < 0 {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	return fmt.Sprintf("[%.8g,%.8g,%.8g,%.8g]", x0, y0, x1, y1)
}

func checkSumRow(rep *Report, sc *schemaDef, row *sumRow) (problem string) {
	for form := 0; form < 4; form++ {
		for _, c := range coordScales {
			if form > 0 && len(row.F.Geoms) > 0 || c != coordScales[0] && len(row.F.Geoms) == 0 {
				continue
			}
			ft, schema := row.F.realFeature(c, form)
			s := flatgeobuf.FeatureString(ft, schema)
			if row.S.Fail {
				if !strings.HasPrefix(s, "error: ") {
					return fmt.Sprintf("damaged properties shown as %q", s)
				}
				continue
			}
			if strings.HasPrefix(s, "error: ") {
				return fmt.Sprintf("good feature shown as %q", s)
			}
			i := strings.Index(s, "Properties:")
			if i < 0 {
				return fmt.Sprintf("no properties in %q", s)
			}
			geom, props := s[:i], s[i:]
			if row.S.Type >= 0 && !strings.Contains(geom, "Type:"+sc.Geometry[row.S.Type]+",") {
				return fmt.Sprintf("geometry type %s not in %q", sc.Geometry[row.S.Type], s)
			}
			if row.S.Bounds[0] != sumInf && !strings.Contains(geom, boundsText(row.S.Bounds, c)) {
				return fmt.Sprintf("bounds %s not in %q", boundsText(row.S.Bounds, c), s)
			}
			rest := props
			if n := strings.Count(props, "name"); n != len(row.S.Props) {
				return fmt.Sprintf("%d properties in %q, want %d", n, s, len(row.S.Props))
			}
			for _, x := range row.S.Props {
				want := colName(x.Name) + ":" + fmt.Sprint(goValue(x.Type, x.V))
				j := strings.Index(rest, want)
				if j < 0 && x.Type == tInt {
					// As found: the lowest byte.
					want = colName(x.Name) + ":" + fmt.Sprint(x.V[0]&0xff)
					if j = strings.Index(rest, want); j >= 0 {
						rep.known(knownReadInt)
					}
				}
				if j < 0 {
					return fmt.Sprintf("%q not in %q (shown: %q)", want, rest, s)
				}
				rest = rest[j+len(want):]
				if rest != "" && rest[0] != ',' && rest[0] != '}' {
					return fmt.Sprintf("after %q comes %q in %q", want, rest, s)
				}
			}
		}
	}
	return ""
}

// randSum makes a random feature whose values are all small numbers.
func randSum(r *rand.Rand) *sumFeature {
	f := &sumFeature{Geoms: []*sumGeom{}, Own: []sumCol{}, Given: []sumCol{}, B: []int{}}
	var geom func(d int) *sumGeom
	geom = func(d int) *sumGeom {
		g := &sumGeom{Type: r.Intn(18), XY: []int{}, Parts: []*sumGeom{}}
		if d == 0 || r.Intn(3) > 0 {
			for i := r.Intn(6); i > 0; i-- {
				g.XY = append(g.XY, r.Intn(41)-20, r.Intn(41)-20)
			}
		}
		if d > 0 {
			for i := r.Intn(4); i > 0; i-- {
				g.Parts = append(g.Parts, geom(d-1-r.Intn(d)))
			}
		}
		return g
	}
	if r.Intn(5) > 0 {
		f.Geoms = append(f.Geoms, geom(r.Intn(5)))
		switch x := r.Intn(60); { // many parts, long, deep nesting
		case x == 0:
			g := f.Geoms[0]
			for i := 65 + r.Intn(300); i > 0; i-- {
				g.Parts = append(g.Parts, &sumGeom{Type: 1, XY: []int{r.Intn(4), r.Intn(4)}, Parts: []*sumGeom{}})
			}
			g.Parts[r.Intn(len(g.Parts))].XY = []int{20, -20}
		case x == 1:
			g := f.Geoms[0]
			for i := 200 + r.Intn(400); i > 0; i-- {
				g.XY = append(g.XY, r.Intn(4), r.Intn(4))
			}
			k := r.Intn(len(g.XY) / 2)
			g.XY[2*k], g.XY[2*k+1] = 20, -20
		case x < 5:
			g := f.Geoms[0]
			for i := 0; i < 40; i++ {
				g = &sumGeom{Type: 7, XY: []int{}, Parts: []*sumGeom{g}}
			}
			f.Geoms[0] = g
		}
	}
	types := []int{tUByte, tUShort, tUInt, tByte, tShort}
	cols := func(base int) []sumCol {
		c := []sumCol{}
		n := r.Intn(5)
		if r.Intn(15) == 0 {
			n = 250 + r.Intn(60)
		}
		for i := 0; i < n; i++ {
			c = append(c, sumCol{base + i, types[r.Intn(len(types))]})
		}
		return c
	}
	if r.Intn(2) == 0 {
		f.Own = cols(1)
	}
	if r.Intn(4) > 0 {
		f.Given = cols(1001)
	}
	use := f.Own
	if len(use) == 0 {
		use = f.Given
	}
	for i := r.Intn(6); i > 0 && len(use) > 0; i-- {
		c := r.Intn(len(use))
		if len(use) > 256 && r.Intn(2) == 0 {
			c = 256 + r.Intn(len(use)-256)
		}
		f.B = append(f.B, c%256, c/256)
		v := []int{r.Intn(120)}
		switch use[c].Type {
		case tUShort, tShort:
			v = []int{v[0], r.Intn(100)}
		case tUInt:
			v = []int{v[0], r.Intn(256), r.Intn(100), 0}
		}
		f.B = append(f.B, v...)
	}
	switch r.Intn(8) {
	case 0:
		f.B = f.B[:r.Intn(len(f.B)+1)]
	case 1:
		f.B = append(f.B, r.Intn(256))
	case 2:
		if len(f.B) > 0 {
			f.B[r.Intn(len(f.B))] = r.Intn(256)
		}
	}
	return f
}

// tameSum says whether no value of the properties can be negative or beyond
// the numbers TLC computes with: bytes of values changed by damage may be.
func tameSum(f *sumFeature) bool {
	use := f.Own
	if len(use) == 0 {
		use = f.Given
	}
	for p := 0; p+2 <= len(f.B); {
		c := f.B[p] + 256*f.B[p+1]
		if c >= len(use) {
			return true
		}
		w := typeWidth(use[c].Type)
		if p += 2 + w; p > len(f.B) {
			return true
		}
		if f.B[p-1] > 127 {
			return false
		}
	}
	return true
}

// parse reads the text of a feature back; ok is false when it has another
// form.
func parseSum(s string, sc *schemaDef, c coordScale, e M) bool {
	e["fail"], e["type"], e["bounds"], e["props"] = false, -1, []int{}, [][]int{}
	if strings.HasPrefix(s, "error: ") {
		e["fail"] = true
		return true
	}
	i := strings.Index(s, "Properties:{")
	if i < 0 || !strings.HasSuffix(s, "}}") {
		return false
	}
	geom, props := s[:i], s[i+len("Properties:{"):len(s)-2]
	for k, n := range sc.Geometry {
		if strings.Contains(geom, "Type:"+n+",") {
			e["type"] = k
		}
	}
	if a, b := strings.Index(geom, "["), strings.Index(geom, "]"); a >= 0 && b > a {
		var v []int
		for _, t := range strings.Split(geom[a+1:b], ",") {
			x, err := strconv.ParseFloat(t, 64)
			if err != nil {
				return false
			}
			v = append(v, int(math.Round((x-c.b)/c.a)))
		}
		if len(v) != 4 {
			return false
		}
		if c.a < 0 {
			v = []int{v[2], v[3], v[0], v[1]}
		}
		e["bounds"] = v
	}
	out := [][]int{}
	if props != "" {
		for _, t := range strings.Split(props, ",") {
			var name, v int
			if n, err := fmt.Sscanf(t, "name%d_:%d", &name, &v); n != 2 || err != nil {
				return false
			}
			out = append(out, []int{name, v})
		}
	}
	e["props"] = out
	return true
}

// cyclic makes features whose geometry contains itself.
func cyclic() (out [][]byte, certain []bool) {
	g := &Geom{Type: 7, XY: []float64{1, 2}, Parts: []*Geom{{Type: 7, XY: []float64{3, 4}, Parts: []*Geom{{Type: 1, XY: []float64{5, 6}}, {Type: 2, XY: []float64{5, 6}}}}}}
	b := EncodeFeature(FeatSpec{Geom: g})
	// Redirect each part to every position.
	var parts func(pos int, in []int)
	u := func(p int) int { return int(binary.LittleEndian.Uint32(b[p:])) }
	field := func(pos, slot int) int {
		vt := pos - int(int32(u(pos)))
		if 4+2*slot >= int(binary.LittleEndian.Uint16(b[vt:])) {
			return 0
		}
		if o := int(binary.LittleEndian.Uint16(b[vt+4+2*slot:])); o > 0 {
			return pos + o
		}
		return 0
	}
	var tabs, refs []int
	within := map[int][]int{} // reference: the geometries it is in
	parts = func(pos int, in []int) {
		in = append(append([]int(nil), in...), pos)
		tabs = append(tabs, pos)
		if f := field(pos, 7); f > 0 {
			v := f + u(f)
			for i := 0; i < u(v); i++ {
				p := v + 4 + 4*i
				refs = append(refs, p)
				within[p] = in
				parts(p+u(p), in)
			}
		}
	}
	root := int(rootPos(b))
	f := field(root, 0)
	parts(f+u(f), nil)
	for _, r := range refs {
		for _, t := range tabs {
			c := append([]byte(nil), b...)
			binary.LittleEndian.PutUint32(c[r:], uint32(t-r))
			out = append(out, c)
			loop := false
			for _, x := range within[r] {
				loop = loop || x == t
			}
			certain = append(certain, loop)
		}
	}
	// Two parts of each geometry go to the same one, at every level: a
	// small table with very many paths.
	return append(out, doubling(12), doubling(60)), append(certain, false, false)
}

// loops are features whose geometry certainly contains itself.
var loops = func() (out [][]byte) {
	cs, certain := cyclic()
	for i, b := range cs {
		if certain[i] {
			out = append(out, b)
		}
	}
	return
}()

// doubling nests geometries so that both parts of each are the next one.
func doubling(levels int) []byte {
	g := &Geom{Type: 1, XY: []float64{1, 2}}
	for i := 0; i < levels; i++ {
		g = &Geom{Type: 7, Parts: []*Geom{g, {Type: 1}}}
	}
	b := EncodeFeature(FeatSpec{Geom: g})
	u := func(p int) int { return int(binary.LittleEndian.Uint32(b[p:])) }
	pos := int(rootPos(b))
	field := func(pos, slot int) int {
		vt := pos - int(int32(u(pos)))
		if 4+2*slot >= int(binary.LittleEndian.Uint16(b[vt:])) {
			return 0
		}
		return pos + int(binary.LittleEndian.Uint16(b[vt+4+2*slot:]))
	}
	f := field(pos, 0)
	pos = f + u(f)
	for {
		f := field(pos, 7)
		if f <= pos {
			return b
		}
		v := f + u(f)
		if u(v) < 2 {
			return b
		}
		next := v + 4 + u(v+4)
		binary.LittleEndian.PutUint32(b[v+8:], uint32(next-(v+8)))
		pos = next
	}
}

func runSummary(edges, schema, out, tier string, seed int64) {
	rep := newReport()
	sc := &schemaDef{}
	readRows(schema, func(b []byte) {
		if err := json.Unmarshal(b, sc); err != nil {
			die("schema: %v", err)
		}
	})
	var rows []*sumRow
	readRows(edges, func(b []byte) {
		row := &sumRow{}
		if err := json.Unmarshal(b, row); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, row)
	})
	parallel(len(rows), 8, func(i int) {
		if rep.stop() {
			return
		}
		var problem string
		if p := guard(func() { problem = checkSumRow(rep, sc, rows[i]) }); p != nil {
			problem = fmt.Sprint("panic: ", p)
		}
		if problem != "" {
			rep.violate(M{"problem": problem, "row": rows[i]})
		}
		rep.eval.Add(1)
	})
	rep.count("features summarized", int64(len(rows)))

	files, texts := 8, 350
	if tier == "thorough" {
		files, texts = 32, 2500
	}
	for i := 0; i < files; i++ {
		rep.Traces = append(rep.Traces, fmt.Sprintf("sum%d.ndjson", i))
	}
	ws := watchAll(rep, out, 8, watchLimit)
	parallel(files, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*131 + int64(k)))
		tr := newTrace(out, rep.Traces[k])
		defer tr.close()
		for i := 0; i < texts && !rep.stop(); i++ {
			f := randSum(r)
			if !tameSum(f) {
				continue
			}
			c := coordScales[r.Intn(len(coordScales))]
			var s string
			if p := guard(func() {
				ft, schema := f.realFeature(c, r.Intn(4))
				s = flatgeobuf.FeatureString(ft, schema)
			}); p != nil {
				rep.violate(M{"problem": fmt.Sprint("FeatureString panics: ", p), "feature": f})
				continue
			}
			e := M{"e": "begin", "f": f}
			if !parseSum(s, sc, c, e) {
				rep.violate(M{"problem": fmt.Sprintf("unexpected text %q", s), "feature": f})
				continue
			}
			tr.emit(e)
		}
	})
	// Damaged tables: a text must be returned.
	var hdrs, fts [][]byte
	for _, f := range hostileBases() {
		hdrs = append(hdrs, f.Hdr)
		if len(fts) == 0 {
			fts = append(fts, f.Feats...)
		}
	}
	hdrs = append(hdrs, EncodeHeader(HeaderSpec{Name: "n", Title: "t", Count: 1 << 40, NodeSize: 16, GeomType: 200, Columns: schemaCols([]int{tInt, tBinary, 77})}))
	good := flat.GetSizePrefixedRootAsHeader(hdrs[0], 0)
	tried := int64(0)
	parallel(8, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*137 + int64(k)))
		n := int64(0)
		text := func(what string, b []byte, fn func() string) {
			ws[k].enter(func() string { return fmt.Sprintf("%s % x", what, b) })
			var s string
			if p := guard(func() { s = fn() }); p != nil {
				rep.violate(M{"problem": fmt.Sprintf("%s % x panics: %v", what, b, p)})
			} else if s == "" {
				rep.violate(M{"problem": fmt.Sprintf("%s % x is empty", what, b)})
			}
			ws[k].leave()
			n++
		}
		hdr := func(b []byte) {
			h := new(flat.Header)
			h.Init(b, 4+uint32ToU(binary.LittleEndian.Uint32(b[4:])))
			text("header text of", b, func() string { return flatgeobuf.HeaderString(h) })
			if r.Intn(4) == 0 {
				f := flat.GetSizePrefixedRootAsFeature(fts[1], 0)
				text("feature text with the damaged schema", b, func() string { return flatgeobuf.FeatureString(f, h) })
			}
		}
		feat := func(b []byte) {
			f := new(flat.Feature)
			f.Init(b, 4+uint32ToU(binary.LittleEndian.Uint32(b[4:])))
			text("feature text of", b, func() string {
				if r.Intn(3) == 0 {
					return flatgeobuf.FeatureString(f, nil)
				}
				return flatgeobuf.FeatureString(f, good)
			})
		}
		damage := func(b []byte, fn func([]byte)) {
			for j := 4; j < len(b); j++ {
				for v := 1; v < 256; v++ {
					if (j+v)%8 != k || rep.stop() || v&(v-1) != 0 && v != 255 && tier == "quick" && r.Intn(3) > 0 {
						continue
					}
					c := append([]byte(nil), b...)
					c[j] ^= byte(v)
					fn(c)
				}
			}
			for i := 8; i < len(b); i++ {
				if i%8 == k {
					fn(b[:i:i])
				}
			}
			m := 1500
			if tier == "thorough" {
				m = 40000
			}
			for i := 0; i < m && !rep.stop(); i++ {
				c := append([]byte(nil), b...)
				for j := 1 + r.Intn(4); j > 0; j-- {
					p := 4 + r.Intn(len(c)-4)
					switch r.Intn(4) {
					case 0:
						c[p] = byte(r.Intn(256))
					case 1:
						c[p] = byte(r.Intn(64))
					case 2:
						if p &^= 3; p+4 <= len(c) {
							binary.LittleEndian.PutUint32(c[p:], uint32(r.Intn(2*len(c))-len(c)))
						}
					case 3:
						if p &^= 1; p+2 <= len(c) {
							binary.LittleEndian.PutUint16(c[p:], uint16(r.Intn(100)))
						}
					}
				}
				fn(c)
			}
		}
		for _, b := range hdrs {
			damage(b, hdr)
		}
		for _, b := range fts {
			damage(b, feat)
		}
		cs, certain := cyclic()
		for i, b := range cs {
			if i%8 != k {
				continue
			}
			feat(b)
			if certain[i] {
				f := new(flat.Feature)
				f.Init(b, 4+uint32ToU(binary.LittleEndian.Uint32(b[4:])))
				text("feature text of", b, func() string {
					s := flatgeobuf.FeatureString(f, good)
					if !strings.HasPrefix(s, "error: ") {
						rep.violate(M{"problem": fmt.Sprintf("the text of a feature whose geometry contains itself is %q", s)})
					}
					return s
				})
			}
		}
		rep.eval.Add(n)
	})
	rep.count("texts of damaged tables", rep.eval.Load()-int64(len(rows))+tried)
	rep.sample(M{"feature": rows[len(rows)/2].F}, 1)
	rep.write(out)
}

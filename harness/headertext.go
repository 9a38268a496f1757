package main

// Texts of headers (rows exported from HeaderTextMC, random headers recorded
// for HeaderTextTrace), and of boxes, references, results and trees.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	fb "github.com/google/flatbuffers/go"
)

type htCrs struct {
	Org  int `json:"org"`
	Code int `json:"code"`
	Name int `json:"name"`
	Wkt  int `json:"wkt"`
	Str  int `json:"str"`
}
type htHeader struct {
	Name  int      `json:"name"`
	Title int      `json:"title"`
	Desc  int      `json:"desc"`
	Meta  int      `json:"meta"`
	Env   []int    `json:"env"`
	Type  int      `json:"type"`
	Dims  []string `json:"dims"`
	Cols  int      `json:"cols"`
	Count []int    `json:"count"`
	Node  int      `json:"node"`
	Crs   []htCrs  `json:"crs"`
}
type htRow struct {
	H htHeader `json:"h"`
	S htHeader `json:"s"`
}

// htTexts are told apart by the field they are for.
func htText(field string, id int) string {
	if id == 0 {
		return ""
	}
	return fmt.Sprintf("the %s no %d", field, id)
}

func (h *htHeader) encode(c coordScale) *flat.Header {
	b := fb.NewBuilder(512)
	str := func(field string, id int) fb.UOffsetT {
		if id == 0 {
			return 0
		}
		return b.CreateString(htText(field, id))
	}
	var crs, env, cols fb.UOffsetT
	if len(h.Crs) > 0 {
		k := h.Crs[0]
		var wkt fb.UOffsetT
		if k.Wkt >= 0 {
			wkt = b.CreateString(strings.Repeat("w", k.Wkt))
		}
		org, name, cs := str("organisation", k.Org), str("system", k.Name), str("code", k.Str)
		b.StartObject(6)
		b.PrependUOffsetTSlot(0, org, 0)
		b.PrependInt32Slot(1, int32(k.Code), 0)
		b.PrependUOffsetTSlot(2, name, 0)
		b.PrependUOffsetTSlot(4, wkt, 0)
		b.PrependUOffsetTSlot(5, cs, 0)
		crs = b.EndObject()
	}
	if len(h.Env) > 0 {
		v := make([]float64, len(h.Env))
		for i, x := range h.Env {
			v[i] = c.f(x)
		}
		env = f64vec(b, v)
	}
	if h.Cols > 0 {
		cs := make([]Column, h.Cols)
		for i := range cs {
			cs[i] = Column{Name: fmt.Sprint("column", i), Type: byte(i)}
		}
		cols = colVec(b, cs)
	}
	name, title, desc, meta := str("name", h.Name), str("title", h.Title), str("description", h.Desc), str("metadata", h.Meta)
	b.StartObject(14)
	b.PrependUOffsetTSlot(0, name, 0)
	b.PrependUOffsetTSlot(1, env, 0)
	b.PrependByteSlot(2, byte(h.Type), 0)
	for i, d := range []string{"Z", "M", "T", "TM"} {
		for _, x := range h.Dims {
			if x == d {
				b.PrependBoolSlot(3+i, true, false)
			}
		}
	}
	b.PrependUOffsetTSlot(7, cols, 0)
	var n uint64
	for _, d := range h.Count {
		n = n<<16 | uint64(d)
	}
	b.PrependUint64Slot(8, n, 0)
	b.PrependUint16Slot(9, uint16(h.Node), 16)
	b.PrependUOffsetTSlot(10, crs, 0)
	b.PrependUOffsetTSlot(11, title, 0)
	b.PrependUOffsetTSlot(12, desc, 0)
	b.PrependUOffsetTSlot(13, meta, 0)
	b.FinishSizePrefixed(b.EndObject())
	return flat.GetSizePrefixedRootAsHeader(append([]byte(nil), b.FinishedBytes()...), 0)
}

// pieces splits s at the commas outside brackets.
func pieces(s string) (out []string) {
	depth, from := 0, 0
	for i, c := range s {
		switch c {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[from:i])
				from = i + 1
			}
		}
	}
	return append(out, s[from:])
}

// parseHeaderText gives what a text shows.
func parseHeaderText(s string, sc *schemaDef, c coordScale) (*htHeader, error) {
	o := &htHeader{Env: []int{}, Dims: []string{}, Count: []int{}, Node: -2, Type: -1, Cols: -1, Crs: []htCrs{}}
	if !strings.HasPrefix(s, "Header{") || !strings.HasSuffix(s, "}") {
		return nil, fmt.Errorf("no header")
	}
	id := func(field, v string) int {
		if v == "" {
			return 0
		}
		for i := 1; i < 5; i++ {
			if htText(field, i) == v {
				return i
			}
		}
		return -9
	}
	known := false
	for _, p := range pieces(s[len("Header{") : len(s)-1]) {
		k, v := p, ""
		if i := strings.Index(p, ":"); i >= 0 {
			k, v = p[:i], p[i+1:]
		}
		var err error
		switch k {
		case "":
		case "Name":
			o.Name = id("name", v)
		case "Title":
			o.Title = id("title", v)
		case "Desc":
			o.Desc = id("description", v)
		case "Meta":
			o.Meta = id("metadata", v)
		case "Envelope":
			for _, x := range strings.Split(strings.Trim(v, "[]"), ",") {
				f, err := strconv.ParseFloat(x, 64)
				if err != nil {
					return nil, err
				}
				o.Env = append(o.Env, int(math.Round((f-c.b)/c.a)))
			}
		case "Type":
			for i, n := range sc.Geometry {
				if n == v {
					o.Type = i
				}
			}
		case "NumColumns":
			o.Cols, err = strconv.Atoi(v)
		case "NumFeatures":
			known = true
			if v != "UNKNOWN" {
				var n uint64
				n, err = strconv.ParseUint(v, 10, 64)
				o.Count = []int{int(n >> 48), int(n >> 32 & 65535), int(n >> 16 & 65535), int(n & 65535)}
			}
		case "NodeSize":
			o.Node, err = strconv.Atoi(v)
		case "NO INDEX":
			o.Node = -1
		case "CRS":
			if v == "<nil>" {
				break
			}
			if len(v) < 2 {
				return nil, fmt.Errorf("reference system %q", v)
			}
			r := htCrs{Wkt: -1}
			for _, p := range pieces(v[1 : len(v)-1]) {
				k, v := p, ""
				if i := strings.Index(p, ":"); i >= 0 {
					k, v = p[:i], p[i+1:]
				}
				switch k {
				case "":
				case "Org":
					r.Org = id("organisation", v)
				case "Code":
					r.Code, err = strconv.Atoi(v)
				case "Name":
					r.Name = id("system", v)
				case "WKT":
					if v != "<nil>" {
						_, err = fmt.Sscanf(v, "%d bytes", &r.Wkt)
					}
				case "CodeString":
					r.Str = id("code", v)
				default:
					return nil, fmt.Errorf("what is %q", p)
				}
			}
			o.Crs = append(o.Crs, r)
		default:
			for _, d := range strings.Split(p, "|") {
				if d != "Z" && d != "M" && d != "T" && d != "TM" {
					return nil, fmt.Errorf("what is %q", p)
				}
				o.Dims = append(o.Dims, d)
			}
		}
		if err != nil {
			return nil, err
		}
	}
	if !known || o.Node == -2 || o.Cols < 0 || o.Type < 0 {
		return nil, fmt.Errorf("something is not shown")
	}
	return o, nil
}

func sortedDims(d []string) (out []string) {
	out = []string{}
	for _, k := range []string{"Z", "M", "T", "TM"} {
		for _, x := range d {
			if x == k {
				out = append(out, k)
			}
		}
	}
	return
}

func randHeader(r *rand.Rand) *htHeader {
	pick := func() int {
		if r.Intn(2) == 0 {
			return 0
		}
		return 1 + r.Intn(4)
	}
	h := &htHeader{Name: pick(), Title: pick(), Desc: pick(), Meta: pick(), Env: []int{}, Dims: []string{}, Crs: []htCrs{}, Count: []int{0, 0, 0, 0}}
	for i := r.Intn(9); i > 0; i-- {
		h.Env = append(h.Env, r.Intn(2001)-1000)
	}
	h.Type = r.Intn(18)
	for _, d := range []string{"Z", "M", "T", "TM"} {
		if r.Intn(2) == 0 {
			h.Dims = append(h.Dims, d)
		}
	}
	h.Cols = r.Intn(5)
	for i := range h.Count {
		if r.Intn(2) == 0 {
			h.Count[i] = r.Intn(65536)
		}
	}
	h.Node = []int{0, 2 + r.Intn(100), r.Intn(65536)}[r.Intn(3)]
	if r.Intn(3) > 0 {
		h.Crs = append(h.Crs, htCrs{Org: pick(), Code: int(int32(r.Uint32())), Name: pick(), Wkt: r.Intn(60) - 1, Str: pick()})
		h.Crs[0].Code >>= uint(r.Intn(31))
	}
	return h
}

// near compares numbers printed with eight digits.
func near(s string, v float64) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && (f == v || math.Abs(f-v) <= 1e-7*math.Abs(v))
}

func showsBox(s string, b packedrtree.Box) bool {
	i, j := strings.Index(s, "["), strings.Index(s, "]")
	if i < 0 || j < i {
		return false
	}
	v := strings.Split(s[i+1:j], ",")
	return len(v) == 4 && near(v[0], b.XMin) && near(v[1], b.YMin) && near(v[2], b.XMax) && near(v[3], b.YMax)
}

func showsNumber(s, key string, n int64) bool {
	i := strings.Index(s, key+":")
	if i < 0 {
		return false
	}
	s = s[i+len(key)+1:]
	if j := strings.IndexAny(s, ",}"); j >= 0 {
		s = s[:j]
	}
	return s == fmt.Sprint(n)
}

// treeTexts describes boxes, references and trees.
func treeTexts(r *rand.Rand) (problem string) {
	num := func() float64 {
		switch r.Intn(5) {
		case 0:
			return math.Inf(2*r.Intn(2) - 1)
		case 1:
			return float64(r.Intn(2000) - 1000)
		case 2:
			return r.NormFloat64() * math.Pow(10, float64(r.Intn(600)-300))
		}
		return r.NormFloat64() * 100
	}
	box := func() packedrtree.Box { return packedrtree.Box{XMin: num(), YMin: num(), XMax: num(), YMax: num()} }
	b := box()
	if s := b.String(); !showsBox(s, b) {
		return fmt.Sprintf("the text of a box %v,%v,%v,%v is %q", b.XMin, b.YMin, b.XMax, b.YMax, s)
	}
	ref := packedrtree.Ref{Box: b, Offset: int64(r.Uint64()) >> uint(r.Intn(64))}
	if s := ref.String(); !showsBox(s, b) || !showsNumber(s, "Offset", ref.Offset) {
		return fmt.Sprintf("the text of a reference to %d in %v,%v,%v,%v is %q", ref.Offset, b.XMin, b.YMin, b.XMax, b.YMax, s)
	}
	refs := make([]packedrtree.Ref, 1+r.Intn(40))
	all := packedrtree.Box{XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(-1), YMax: math.Inf(-1)}
	for i := range refs {
		x, y := num(), num()
		refs[i].Box = packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}
		all = packedrtree.Box{XMin: math.Min(all.XMin, x), YMin: math.Min(all.YMin, y), XMax: math.Max(all.XMax, x), YMax: math.Max(all.YMax, y)}
	}
	ns := 2 + r.Intn(30)
	t, err := packedrtree.New(refs, uint16(ns))
	if err != nil {
		return fmt.Sprint("New: ", err)
	}
	if s := t.String(); !showsBox(s, all) || !showsNumber(s, "NumRefs", int64(len(refs))) || !showsNumber(s, "NodeSize", int64(ns)) {
		return fmt.Sprintf("the text of a tree of %d references, node size %d, bounds %v,%v,%v,%v is %q", len(refs), ns, all.XMin, all.YMin, all.XMax, all.YMax, s)
	}
	return ""
}

func runHeaderText(edges, schema, out, tier string, seed int64) {
	rep := newReport()
	sc := &schemaDef{}
	readRows(schema, func(b []byte) {
		if err := json.Unmarshal(b, sc); err != nil {
			die("schema: %v", err)
		}
	})
	text := func(h *htHeader, c coordScale) (s string, got *htHeader, problem string) {
		if p := guard(func() { s = flatgeobuf.HeaderString(h.encode(c)) }); p != nil {
			return s, nil, fmt.Sprint("HeaderString panics: ", p)
		}
		got, err := parseHeaderText(s, sc, c)
		if err != nil {
			return s, nil, fmt.Sprintf("unexpected text %q: %v", s, err)
		}
		got.Dims = sortedDims(got.Dims)
		return s, got, ""
	}
	rows := int64(0)
	readRows(edges, func(b []byte) {
		row := &htRow{}
		if err := json.Unmarshal(b, row); err != nil {
			die("row: %v", err)
		}
		if rep.stop() {
			return
		}
		row.S.Dims = sortedDims(row.S.Dims)
		c := coordScales[int(rows)%len(coordScales)]
		s, got, p := text(&row.H, c)
		if p == "" && !reflect.DeepEqual(*got, row.S) {
			p = fmt.Sprintf("the text %q shows %+v, want %+v", s, *got, row.S)
		}
		if p != "" {
			rep.violate(M{"problem": p, "header": row.H})
		}
		rows++
	})
	rep.eval.Add(rows)
	rep.count("headers summarized", rows)
	files, texts, trees := 2, 800, 3000
	if tier == "thorough" {
		files, texts, trees = 16, 4000, 300000
	}
	for i := 0; i < files; i++ {
		rep.Traces = append(rep.Traces, fmt.Sprintf("header%d.ndjson", i))
	}
	parallel(files, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*151 + int64(k)))
		tr := newTrace(out, rep.Traces[k])
		defer tr.close()
		for i := 0; i < texts && !rep.stop(); i++ {
			h := randHeader(r)
			_, got, p := text(h, coordScales[r.Intn(len(coordScales))])
			if p != "" {
				rep.violate(M{"problem": p, "header": h})
				continue
			}
			tr.emit(M{"e": "begin", "h": h, "s": got})
		}
		for i := 0; i < trees/files && !rep.stop(); i++ {
			if p := treeTexts(r); p != "" {
				rep.violate(M{"problem": p})
			}
			rep.eval.Add(1)
		}
	})
	rep.count("trees described", int64(trees))
	rep.write(out)
}

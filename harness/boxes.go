package main

// Box operations: rows exported from BoxesMC.tla replayed on the real code,
// and random histories recorded for BoxesTrace.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

type boxRow struct {
	B     [4]int `json:"b"`
	Pairs []struct {
		C    [4]int `json:"c"`
		Join [4]int `json:"join"`
		Meet bool   `json:"meet"`
	} `json:"pairs"`
	Points []struct {
		P    [2]int `json:"p"`
		Join [4]int `json:"join"`
	} `json:"points"`
}

// ladders are ascending coordinates for the five coordinates of the model.
var ladders = [][5]float64{
	{0, 1, 2, 3, 4},
	{math.Inf(-1), -1.5, 0, 2.25, math.Inf(1)},
	{-math.MaxFloat64, -5e-324, 0, 5e-324, math.MaxFloat64},
	{-3, -2, -1, -0.5, -0.25},
	{1, math.Nextafter(1, 2), 1 + 1e-9, 1e9, 1e300},
	{math.Inf(-1), -math.MaxFloat64, -1, 1, math.MaxFloat64},
}

func ladderBox(l [5]float64, b [4]int) packedrtree.Box {
	if b[0] == infInt {
		return packedrtree.EmptyBox
	}
	return packedrtree.Box{XMin: l[b[0]], YMin: l[b[1]], XMax: l[b[2]], YMax: l[b[3]]}
}

// meets asks whether two boxes intersect, through a tree.
func meets(ref, query packedrtree.Box) bool {
	t, err := packedrtree.New([]packedrtree.Ref{{Box: ref, Offset: 5}}, 2)
	if err != nil {
		panic(err)
	}
	return len(t.Search(query)) == 1
}

func unbounded(b packedrtree.Box) bool {
	return math.IsInf(b.XMin, -1) && math.IsInf(b.YMin, -1) && math.IsInf(b.XMax, 1) && math.IsInf(b.YMax, 1)
}

func checkBoxRow(row *boxRow, l [5]float64) (problem string) {
	if p := guard(func() {
		b := ladderBox(l, row.B)
		if w := b.Width(); w != b.XMax-b.XMin && !math.IsNaN(b.XMax-b.XMin) {
			problem = fmt.Sprintf("%v has width %v", b, w)
			return
		}
		if h := b.Height(); h != b.YMax-b.YMin && !math.IsNaN(b.YMax-b.YMin) {
			problem = fmt.Sprintf("%v has height %v", b, h)
			return
		}
		for _, x := range row.Pairs {
			c := ladderBox(l, x.C)
			g, arg := b, c
			g.Expand(&arg)
			if want := ladderBox(l, x.Join); g != want {
				problem = fmt.Sprintf("%v expanded by %v is %v, want %v", b, c, g, want)
				return
			}
			if arg != c {
				problem = fmt.Sprintf("Expand changed its argument %v to %v", c, arg)
				return
			}
			// The empty box and the whole plane: unspecified.
			if (b == packedrtree.EmptyBox && unbounded(c)) || (c == packedrtree.EmptyBox && unbounded(b)) {
				continue
			}
			if got := meets(b, c); got != x.Meet {
				problem = fmt.Sprintf("reference box %v is found by query %v: %v, want %v", b, c, got, x.Meet)
				return
			}
		}
		for _, x := range row.Points {
			g := b
			g.ExpandXY(l[x.P[0]], l[x.P[1]])
			if want := ladderBox(l, x.Join); g != want {
				problem = fmt.Sprintf("%v expanded by (%v, %v) is %v, want %v", b, l[x.P[0]], l[x.P[1]], g, want)
				return
			}
		}
	}); p != nil {
		return fmt.Sprint("panic: ", p)
	}
	return problem
}

func runBoxes(edges, out, tier string, seed int64) {
	rep := newReport()
	fh, err := os.Open(edges)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	var rows []*boxRow
	for sc.Scan() {
		row := &boxRow{}
		if err := json.Unmarshal(sc.Bytes(), row); err != nil {
			die("row: %v", err)
		}
		rows = append(rows, row)
	}
	parallel(len(rows), 8, func(i int) {
		for k, l := range ladders {
			if rep.stop() {
				return
			}
			if p := checkBoxRow(rows[i], l); p != "" {
				rep.violate(M{"problem": p, "box": rows[i].B, "coordinates": fmt.Sprint(l)})
			}
			_ = k
			rep.eval.Add(int64(len(rows[i].Pairs) + len(rows[i].Points)))
		}
	})
	rep.Counts["rows"] = int64(len(rows))
	shards, per := 8, 150
	if tier == "thorough" {
		per = 1500
	}
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*977 + int64(sh)))
		name := fmt.Sprintf("box%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			if p := guard(func() { boxSession(rep, tr, r) }); p != nil {
				tr.emit(M{"e": "panic", "detail": fmt.Sprint(p)})
			}
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

func boxSession(rep *Report, tr *Trace, r *rand.Rand) {
	rep.mu.Lock()
	rep.Eval++
	rep.mu.Unlock()
	// Coordinates are small multiples of a power of two, so that differences
	// are exact.
	u := math.Ldexp(1, r.Intn(1900)-1000)
	ib := func(b packedrtree.Box) [4]int {
		f := func(v float64) int {
			if math.IsInf(v, 1) {
				return infInt
			}
			if math.IsInf(v, -1) {
				return -infInt
			}
			if q := v / u; q == math.Trunc(q) && math.Abs(q) < 1e6 {
				return int(q)
			}
			return 77777777
		}
		return [4]int{f(b.XMin), f(b.YMin), f(b.XMax), f(b.YMax)}
	}
	p := plane{f: func(i int) float64 { return float64(i) * u }}
	b := p.box(randBoxes(r, 1, false, 500)[0])
	if r.Intn(2) == 0 {
		b = packedrtree.EmptyBox
	}
	tr.emit(M{"e": "begin", "b": ib(b)})
	var log []string
	for k := 3 + r.Intn(12); k > 0; k-- {
		ci := randBoxes(r, 1, true, 500)[0]
		switch r.Intn(5) {
		case 0:
			c := p.box(ci)
			keep := c
			b.Expand(&c)
			tr.emit(M{"e": "grow", "c": ci, "b": ib(b), "arg": c == keep})
		case 1:
			x, y := r.Intn(1000)-500, r.Intn(1000)-500
			b.ExpandXY(p.f(x), p.f(y))
			tr.emit(M{"e": "growxy", "x": x, "y": y, "b": ib(b)})
		case 2:
			if b == packedrtree.EmptyBox {
				continue
			}
			tr.emit(M{"e": "measure", "w": int(b.Width() / u), "h": int(b.Height() / u), "b": ib(b)})
		case 3:
			tr.emit(M{"e": "touch", "c": ci, "fwd": meets(b, p.box(ci)), "back": meets(p.box(ci), b)})
		case 4:
			n := r.Intn(14)
			if r.Intn(6) == 0 {
				n = r.Intn(200)
			}
			rs := make(packedrtree.Results, n)
			in, outp := make([][2]int, n), make([][2]int, n)
			span := 1 + r.Intn(2*n+1)
			sh := uint(r.Intn(40))
			for i := range rs {
				in[i] = [2]int{r.Intn(span) - r.Intn(span), i}
				rs[i] = packedrtree.Result{Offset: int64(in[i][0]) << sh, RefIndex: i}
			}
			sort.Sort(rs)
			for i := range rs {
				outp[i] = [2]int{int(rs[i].Offset >> sh), rs[i].RefIndex}
				if rs[i].Offset != int64(outp[i][0])<<sh {
					outp[i][0] = 77777777
				}
			}
			tr.emit(M{"e": "sort", "in": in, "out": outp, "len": rs.Len()})
			rep.count("sorts", 1)
			if len(log) < 3 {
				log = append(log, fmt.Sprint("sort ", outp))
			}
		}
		if len(log) < 6 {
			log = append(log, fmt.Sprint(ib(b)))
		}
	}
	rep.sample(M{"box history": log}, 2)
}

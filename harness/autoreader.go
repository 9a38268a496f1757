package main

// Replays the oracle automaton exported by TLC from FileReaderMC.tla against
// the real reader: every call history up to a depth, over every abstract file
// of the model, on concrete files, streams, truncations and faults.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/gogama/flatgeobuf/packedrtree"
)

type absFile struct {
	N     int    `json:"n"`
	Known bool   `json:"known"`
	Idx   bool   `json:"idx"`
	Seek  bool   `json:"seek"`
	Cut   string `json:"cut"`
	M     int    `json:"m"`
	Clean bool   `json:"clean"`
	Cerr  bool   `json:"cerr"`
}

type mstate struct {
	St string
	Nx int
}

type edge struct {
	F    absFile `json:"f"`
	St   string  `json:"st"`
	Nx   int     `json:"nx"`
	Call struct {
		Op string `json:"op"`
		K  int    `json:"k"`
		Q  string `json:"q"`
		H  []int  `json:"h"`
	} `json:"call"`
	Flt bool `json:"flt"`
	O   struct {
		C  string `json:"c"`
		Fs []int  `json:"fs"`
		T  string `json:"t"`
	} `json:"o"`
	St2 string `json:"st2"`
	Nx2 int    `json:"nx2"`
	id  int
}

type callKey struct {
	Op string
	K  int
	Q  string
}

// automaton of one abstract file.
type automaton struct {
	f     absFile
	edges map[mstate]map[callKey][]*edge
	hits  map[string][]int
}

func loadAutomata(path string) (map[absFile]*automaton, int) {
	fh, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	out := map[absFile]*automaton{}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		e := &edge{}
		if err := json.Unmarshal(sc.Bytes(), e); err != nil {
			die("edge: %v", err)
		}
		a := out[e.F]
		if a == nil {
			a = &automaton{f: e.F, edges: map[mstate]map[callKey][]*edge{}, hits: map[string][]int{}}
			out[e.F] = a
		}
		s := mstate{e.St, e.Nx}
		if a.edges[s] == nil {
			a.edges[s] = map[callKey][]*edge{}
		}
		k := callKey{e.Call.Op, e.Call.K, e.Call.Q}
		e.id = n
		a.edges[s][k] = append(a.edges[s][k], e)
		if e.Call.Op == "Search" {
			a.hits[e.Call.Q] = e.Call.H
		}
		n++
	}
	return out, n
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// step advances a set of model states over an observed answer.
func (a *automaton) step(cur []mstate, k callKey, flt bool, obs Ans, next []mstate, cov []uint32) []mstate {
	next = next[:0]
	for _, s := range cur {
		for _, e := range a.edges[s][k] {
			if e.Flt != flt || e.O.C != obs.C || e.O.T != obs.T || !sameInts(e.O.Fs, obs.Fs) {
				continue
			}
			if cov != nil {
				atomic.StoreUint32(&cov[e.id], 1)
			}
			ns := mstate{e.St2, e.Nx2}
			dup := false
			for _, x := range next {
				dup = dup || x == ns
			}
			if !dup {
				next = append(next, ns)
			}
		}
	}
	return next
}

func (a *automaton) allowed(cur []mstate, k callKey, flt bool) []string {
	set := map[string]bool{}
	for _, s := range cur {
		for _, e := range a.edges[s][k] {
			if e.Flt == flt {
				set[fmt.Sprintf("at %s/%d: %s features=%v index=%s", s.St, s.Nx, e.O.C, e.O.Fs, e.O.T)] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// concrete file for an abstract one.
type variant struct {
	name string
	ns   uint16
	perm []int
}

// The three features: points chosen so that every hit set of the model is a
// box query.
var autoPts = [][2]float64{{0, 0}, {10, 10}, {20, 0}}

func autoFile(n int, known, idx bool, v variant) *File {
	h := HeaderSpec{Name: "auto", Columns: []Column{{"id", 5}}, GeomType: 1}
	if known {
		h.Count = uint64(n)
	}
	if idx {
		h.NodeSize = v.ns
	} else if !known {
		h.NodeSize = []uint16{16, 0, 7}[n%3] // irrelevant when the count is unknown
	}
	var fs []FeatSpec
	for i := 0; i < n; i++ {
		s := FeatSpec{Geom: &Geom{XY: []float64{autoPts[i][0], autoPts[i][1]}, Type: 1},
			Props: []byte{0, 0, byte(i + 1), 0, 0, 0}}
		if i == 1 {
			s.Pad = 11
		}
		fs = append(fs, s)
	}
	var perm []int
	if v.perm != nil {
		for _, p := range v.perm {
			if p < n {
				perm = append(perm, p)
			}
		}
	}
	return BuildFile(h, fs, perm)
}

// boxFor finds a query box hitting exactly h of the first n points.
func boxFor(n int, h []int) packedrtree.Box {
	xs := []float64{-5, 0, 5, 10, 15, 20, 25}
	ys := []float64{-5, 0, 5, 10, 15}
	in := map[int]bool{}
	for _, i := range h {
		in[i-1] = true
	}
	for _, x0 := range xs {
		for _, x1 := range xs {
			for _, y0 := range ys {
				for _, y1 := range ys {
					ok := x0 <= x1 && y0 <= y1
					for i := 0; i < n && ok; i++ {
						p := autoPts[i]
						ok = in[i] == (x0 <= p[0] && p[0] <= x1 && y0 <= p[1] && p[1] <= y1)
					}
					if ok {
						return packedrtree.Box{XMin: x0, YMin: y0, XMax: x1, YMax: y1}
					}
				}
			}
		}
	}
	die("no box for hits %v of %d", h, n)
	return packedrtree.Box{}
}

// scenario is a family of runs: one concrete input with its automaton.
type scenario struct {
	a     *automaton
	file  *File  // whole file, for recognizing features
	data  []byte // what the stream holds
	name  string
	frag  int
	calls []Call // alphabet
	depth int
	rest  bool // try Close and what follows at the end of every history
	fault bool // enumerate a failing operation for every history
	seed  int64
}

type worker struct {
	s    Session
	sk   SeekStream
	cur  []mstate
	nxt  []mstate
	turn int
	base int64 // where the data starts, for the current run
}

func (w *worker) stream(sc *scenario, failAt int, part, once bool, seed int64) {
	w.sk.Stream.reset(sc.data, sc.frag, failAt, sc.a.f.Cerr)
	w.sk.part, w.sk.once = part, once
	w.sk.base = w.base
	if sc.frag == fragRandom || sc.frag == fragMixed {
		w.sk.rnd = rand.New(rand.NewSource(seed))
	}
	if sc.a.f.Seek {
		w.s.open(sc.file, &w.sk.Stream, &w.sk)
	} else {
		w.s.open(sc.file, &w.sk.Stream, &w.sk.Stream)
	}
}

// run executes one history and compares every answer with the automaton.
func (w *worker) run(rep *Report, sc *scenario, hist []Call, failAt int, part, once bool, cov []uint32) (ops int, fired bool) {
	w.turn++
	w.base = bases[w.turn%len(bases)]
	w.stream(sc, failAt, part, once, sc.seed)
	w.cur = append(w.cur[:0], mstate{"new", 0})
	var obsd []string
	bad := func(i int, what string, k callKey, flt bool) {
		// Re-run to record every answer for the replay file.
		if obsd == nil {
			obsd = w.record(sc, hist[:i+1], failAt, part, once)
		}
		var names []string
		for _, c := range hist {
			names = append(names, c.String())
		}
		v := M{"scenario": sc.name, "file": fmt.Sprintf("%+v", sc.a.f), "stream": fragNames[sc.frag],
			"data_hex": fmt.Sprintf("%x", sc.data), "history": names, "failing_call": i + 1,
			"observed": obsd, "problem": what, "fail_at_op": failAt, "fault_partial": part, "fault_once": once, "data_starts_at": w.base,
			"detail": w.s.detail, "seed": sc.seed}
		if k.Op != "" {
			v["allowed_by_model"] = w.allowedAt(sc, hist[:i+1], failAt, part, once, flt)
		}
		rep.violate(v)
	}
	for i, c := range hist {
		k := callKey{c.Op, c.K, c.Q}
		was := w.sk.fired
		obs := w.s.do(c)
		flt := !was && w.sk.fired
		w.nxt = sc.a.step(w.cur, k, flt, obs, w.nxt, cov)
		if len(w.nxt) == 0 {
			bad(i, fmt.Sprintf("%s answered %s features=%v index=%s, which the specification does not allow here", c, obs.C, obs.Fs, obs.T), k, flt)
			return w.sk.ops, w.sk.fired
		}
		w.cur, w.nxt = w.nxt, w.cur
	}
	if p := w.s.finish(); p != "" {
		bad(len(hist)-1, p, callKey{}, false)
	}
	return w.sk.ops, w.sk.fired
}

func (w *worker) record(sc *scenario, hist []Call, failAt int, part, once bool) []string {
	w.stream(sc, failAt, part, once, sc.seed)
	var out []string
	for _, c := range hist {
		o := w.s.do(c)
		out = append(out, fmt.Sprintf("%s -> %s features=%v index=%s %s", c, o.C, o.Fs, o.T, w.s.detail))
		w.s.detail = ""
	}
	return out
}

func (w *worker) allowedAt(sc *scenario, hist []Call, failAt int, part, once, flt bool) []string {
	w.stream(sc, failAt, part, once, sc.seed)
	cur := []mstate{{"new", 0}}
	for i, c := range hist {
		k := callKey{c.Op, c.K, c.Q}
		if i == len(hist)-1 {
			return sc.a.allowed(cur, k, flt)
		}
		was := w.sk.fired
		o := w.s.do(c)
		cur = append([]mstate(nil), sc.a.step(cur, k, !was && w.sk.fired, o, nil, nil)...)
	}
	return nil
}

// explore runs all histories of the scenario.
func (w *worker) explore(rep *Report, sc *scenario, cov []uint32) (runs int64) {
	hist := make([]Call, 0, sc.depth+10)
	tail := []Call{{Op: "Close"}, {Op: "Close"}, {Op: "Header"}, {Op: "Index"}, sc.calls[0], {Op: "Data", K: 1}, {Op: "Data", K: 0}, {Op: "DataRem"}, {Op: "Rewind"}, {Op: "Close"}}
	one := func(h []Call) {
		runs++
		ops, _ := w.run(rep, sc, h, -1, false, false, cov)
		if !sc.fault {
			return
		}
		for at := 0; at < ops && !rep.stop(); at++ {
			for m := 0; m < 3; m++ {
				if m == 2 && at%2 == 0 {
					continue
				}
				runs++
				w.run(rep, sc, h, at, m == 1, m >= 1, cov)
			}
		}
	}
	var rec func(d int)
	rec = func(d int) {
		if rep.stop() {
			return
		}
		if d == 0 {
			if sc.rest {
				one(append(hist, tail...))
			} else {
				one(hist)
			}
			return
		}
		for _, c := range sc.calls {
			hist = append(hist, c)
			rec(d - 1)
			hist = hist[:len(hist)-1]
		}
	}
	// Histories that start with Header, and (one call shorter) any history.
	hist = append(hist, Call{Op: "Header"})
	rec(sc.depth)
	hist = hist[:0]
	if !sc.fault {
		d := sc.depth - 2
		if d < 1 {
			d = 1
		}
		for _, c := range sc.calls {
			if c.Op != "Header" {
				hist = append(hist, c)
				rec(d)
				hist = hist[:0]
			}
		}
	}
	return runs
}

func alphabet(a *automaton, n int, qs []string, ks []int) []Call {
	var out []Call
	for _, q := range qs {
		out = append(out, Call{Op: "Search", Q: q, B: boxFor(n, a.hits[q])})
	}
	for _, k := range ks {
		out = append(out, Call{Op: "Data", K: k})
	}
	for _, o := range []string{"Index", "DataRem", "Rewind", "Header"} {
		out = append(out, Call{Op: o})
	}
	return out
}

// runReaderAuto is the driver for P07, P10 and P11.
func runReaderAuto(prop, edges, out, tier string, seed int64) {
	autos, nEdges := loadAutomata(edges)
	rep := newReport()
	cov := make([]uint32, nEdges)
	rnd := rand.New(rand.NewSource(seed))
	var scs []*scenario
	vars := []variant{{"ns2", 2, nil}, {"ns16", 16, nil}, {"ns2-shuffled", 2, []int{2, 0, 1}}, {"ns3-reversed", 3, []int{2, 1, 0}}}
	thorough := tier == "thorough"
	var keys []absFile
	for k := range autos {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	whole := func(f absFile) bool { return f.Cut == "data" && f.M == f.N && f.Clean }

	for _, k := range keys {
		if !whole(k) {
			continue
		}
		a := autos[k]
		for vi, v := range vars {
			if vi > 0 && !k.Idx {
				break
			}
			if vi > 1 && k.N < 2 {
				break
			}
			file := autoFile(k.N, k.Known, k.Idx, v)
			mk := func(qs []string, ks []int, depth int) *scenario {
				return &scenario{a: a, file: file, data: file.Bytes, name: v.name, calls: alphabet(a, k.N, qs, ks), depth: depth, seed: rnd.Int63()}
			}
			switch prop {
			case "P07":
				d := 4
				if thorough {
					d = 5
				}
				if k.Cerr {
					d = 2
				}
				all := []string{"all", "none", "first", "last", "ends", "mid"}
				// Full alphabet, shorter; then a reduced alphabet, deeper.
				s1 := mk(all, []int{0, 1, 2, 3, 4}, d-1)
				s1.rest = true
				scs = append(scs, s1)
				if !k.Cerr {
					q := [][]string{{"ends"}, {"last"}, {"mid"}, {"all"}}[vi%4]
					scs = append(scs, mk(q, []int{0, 1, 4}, d+1))
				}
			case "P15":
				d := 3
				if thorough {
					d = 4
				}
				if k.Cerr {
					continue
				}
				s := mk([]string{"ends", "none", "mid"}, []int{1, 4}, d)
				s.rest = true
				scs = append(scs, s)
			case "P11":
				d := 3
				if thorough {
					d = 4
				}
				if k.Cerr {
					continue
				}
				for fr := fragOne; fr < numFrag; fr++ {
					s := mk([]string{"ends", "none", "mid"}, []int{0, 1, 4}, d)
					s.frag = fr
					scs = append(scs, s)
				}
			case "P10":
				if k.Cerr {
					continue
				}
				d := 2
				if thorough {
					d = 3
				}
				// Failing streams.
				s := mk([]string{"ends", "none", "last"}, []int{0, 1, 4}, d+1)
				s.fault = true
				scs = append(scs, s)
				s2 := mk([]string{"ends", "mid"}, []int{1}, d)
				s2.fault, s2.frag = true, fragRandom
				scs = append(scs, s2)
			}
			if (prop == "P10" || prop == "P11") && !k.Cerr {
				// Every cut.
				for c := 0; c < len(file.Bytes); c++ {
					cf := k
					switch {
					case c < file.HdrEnd:
						cf.Cut, cf.M, cf.Clean = "hdr", 0, true
					case c < file.IdxEnd:
						cf.Cut, cf.M, cf.Clean = "idx", 0, true
					default:
						m := 0
						at := file.IdxEnd
						for _, e := range file.FeatEnd {
							if e <= c {
								m++
								at = e
							}
						}
						cf.M, cf.Clean = m, at == c
						if !k.Known && cf.Clean { // simply a shorter file
							cf.N = m
						}
					}
					ca := autos[cf]
					if ca == nil {
						die("no automaton for %+v", cf)
					}
					frags := []int{fragWhole}
					d := 3
					if thorough {
						d = 4
					}
					if c < file.HdrEnd {
						d = 2
					}
					if prop == "P11" {
						d--
						frags = []int{fragOne, fragMixed, fragEOF}
						if c%3 != 0 && !thorough {
							continue
						}
					}
					for _, fr := range frags {
						hm := cf.N
						s := &scenario{a: ca, file: file, data: file.Bytes[:c], name: fmt.Sprintf("%s cut at %d", v.name, c), frag: fr,
							calls: alphabet(ca, hm, []string{"ends", "none", "last"}, []int{0, 1, 4}), depth: d, seed: rnd.Int63()}
						scs = append(scs, s)
					}
				}
			}
		}
	}
	pool := sync.Pool{New: func() interface{} {
		w := &worker{}
		w.s.keep = prop == "P07" || prop == "P15"
		return w
	}}
	order := rnd.Perm(len(scs))
	// The big scenarios first, so that the cores finish together.
	sort.SliceStable(order, func(i, j int) bool { return scs[order[i]].depth > scs[order[j]].depth })
	parallel(len(scs), 8, func(i int) {
		sc := scs[order[i]]
		w := pool.Get().(*worker)
		n := w.explore(rep, sc, cov)
		rep.eval.Add(n)
		pool.Put(w)
	})
	var covered int64
	for _, c := range cov {
		covered += int64(c)
	}
	rep.Distinct = rep.Eval
	rep.Counts["scenarios"] = int64(len(scs))
	rep.Counts["model_transitions_exported"] = int64(nEdges)
	rep.Counts["model_transitions_replayed"] = covered
	w := pool.Get().(*worker)
	for i := 0; i < 3 && len(scs) > 0; i++ {
		sc := scs[rnd.Intn(len(scs))]
		h := []Call{{Op: "Header"}}
		for len(h) <= sc.depth {
			h = append(h, sc.calls[rnd.Intn(len(sc.calls))])
		}
		rep.sample(M{"scenario": sc.name, "file": fmt.Sprintf("%+v", sc.a.f), "stream": fragNames[sc.frag], "answers": strings.Join(w.record(sc, h, -1, false, false), "; ")}, 3)
	}
	rep.write(out)
}

package main

// Replays the oracle automaton of FileWriterMC.tla against the real writer.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync/atomic"
)

type wshape struct {
	N    int  `json:"n"`
	NS   int  `json:"ns"`
	Cerr bool `json:"cerr"`
}

type wedge struct {
	D    wshape `json:"d"`
	St   string `json:"st"`
	Cnt  int    `json:"cnt"`
	Call struct {
		Op  string   `json:"op"`
		Arg string   `json:"arg"`
		X   string   `json:"x"`
		Fs  []string `json:"fs"`
		Ix  struct {
			N  int `json:"n"`
			NS int `json:"ns"`
		} `json:"ix"`
	} `json:"call"`
	Flt bool `json:"flt"`
	O   struct {
		C    string   `json:"c"`
		Out  []string `json:"out"`
		Part bool     `json:"part"`
	} `json:"o"`
	St2  string `json:"st2"`
	Cnt2 int    `json:"cnt2"`
	id   int
}

type wauto struct {
	d     wshape
	edges map[mstate]map[string][]*wedge
	calls map[string]WCall
}

func (e *wedge) key() string {
	return fmt.Sprint(e.Call.Op, " ", e.Call.Arg, e.Call.X, strings.Join(e.Call.Fs, "."), e.Call.Ix)
}

func loadWriterAutomata(path string) (map[wshape]*wauto, int) {
	fh, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	out := map[wshape]*wauto{}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		e := &wedge{id: n}
		if err := json.Unmarshal(sc.Bytes(), e); err != nil {
			die("edge: %v", err)
		}
		n++
		a := out[e.D]
		if a == nil {
			a = &wauto{e.D, map[mstate]map[string][]*wedge{}, map[string]WCall{}}
			out[e.D] = a
		}
		s := mstate{e.St, e.Cnt}
		if a.edges[s] == nil {
			a.edges[s] = map[string][]*wedge{}
		}
		k := e.key()
		a.edges[s][k] = append(a.edges[s][k], e)
		c := WCall{Key: k, Op: e.Call.Op, Arg: e.Call.Arg, IxN: e.Call.Ix.N, IxNS: e.Call.Ix.NS, Feats: e.Call.Fs}
		if e.Call.Op == "Data" {
			c.Feats = []string{e.Call.X}
		}
		a.calls[k] = c
	}
	return out, n
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a *wauto) step(cur []mstate, k string, flt bool, o WAns, next []mstate, cov []uint32) []mstate {
	next = next[:0]
	for _, s := range cur {
		for _, e := range a.edges[s][k] {
			if e.Flt != flt || e.O.C != o.C || e.O.Part != o.Part || !sameStrs(e.O.Out, o.Out) {
				continue
			}
			if cov != nil {
				atomic.StoreUint32(&cov[e.id], 1)
			}
			ns := mstate{e.St2, e.Cnt2}
			dup := false
			for _, x := range next {
				dup = dup || x == ns
			}
			if !dup {
				next = append(next, ns)
			}
		}
	}
	return next
}

func malformedFeatures(good []byte) [][]byte {
	long := append([]byte(nil), good...)
	binary.LittleEndian.PutUint32(long, uint32(len(good)-4+1)) // one byte more than there is
	huge := append([]byte(nil), good...)
	binary.LittleEndian.PutUint32(huge, math.MaxUint32)
	return [][]byte{long, good[:len(good)-1], huge, good[:7], {}, long}
}

// newWSession makes the concrete header and features of a shape; feats may
// be nil for the two standard ones.
func newWSession(d wshape) *WSession {
	s := &WSession{n: d.N, ns: d.NS, feats: map[string][]byte{}, boxes: map[string]Bx{}}
	h := HeaderSpec{Name: "w", Count: uint64(d.N), NodeSize: uint16(d.NS), Columns: []Column{{"a", 5}}, Title: "t"}
	s.hdr = EncodeHeader(h)
	ga := &Geom{XY: []float64{1, 2, 3, 4}, Type: 2}
	gb := &Geom{Type: 6, Parts: []*Geom{{XY: []float64{-5, 7, 0.5, -1}, Type: 3}}}
	s.addFeature("A", FeatSpec{Geom: ga, Props: []byte{0, 0, 1, 0, 0, 0}})
	s.addFeature("B", FeatSpec{Geom: gb, Props: []byte{0, 0, 2, 0, 0, 0}, Pad: 13})
	s.bad = malformedFeatures(s.feats["A"])
	return s
}

func (s *WSession) addFeature(name string, f FeatSpec) {
	s.feats[name] = EncodeFeature(f)
	b := emptyBx()
	geomBox(f.Geom, &b)
	s.boxes[name] = b
}

// badHeaders are the concrete headers for the model's "refused" and "bad".
func badHeaders(d wshape) (refused, bad [][]byte) {
	h := HeaderSpec{Name: "w", Count: uint64(d.N), NodeSize: 1}
	refused = append(refused, EncodeHeader(h))
	h.NodeSize, h.Count = 2, math.MaxUint64
	refused = append(refused, EncodeHeader(h))
	h.Count = 1 << 63
	refused = append(refused, EncodeHeader(h))
	h.Count = uint64(d.N)
	good := EncodeHeader(h)
	long := append([]byte(nil), good...)
	binary.LittleEndian.PutUint32(long, uint32(len(good)-4+1))
	huge := append([]byte(nil), good...)
	binary.LittleEndian.PutUint32(huge, math.MaxUint32)
	bad = [][]byte{long, good[:len(good)-1], huge, good[:9], {}, {1, 2, 3}}
	return
}

type wscenario struct {
	a     *wauto
	calls []WCall
	depth int
	first []WCall
	fault int // 0: none, 1: some budgets, 2: every byte
	seed  int64
	ref   []byte // the "refused" header
	bad   []byte // the "bad" header
}

func (sc *wscenario) sess() *WSession {
	s := newWSession(sc.a.d)
	s.hdrs = map[string][]byte{"refused": sc.ref, "bad": sc.bad}
	return s
}

func (sc *wscenario) names(h []WCall) []string {
	var o []string
	for _, c := range h {
		n := c.Key
		if c.Ptr {
			n += " (Ptr)"
		}
		o = append(o, n)
	}
	return o
}

type wmode struct {
	budget           int
	part, full, once bool
}

// run executes a history; it returns the unit boundaries in the output.
func (sc *wscenario) run(rep *Report, s *WSession, hist []WCall, m wmode, cov []uint32, rec *[]string) []int {
	sink := &Sink{budget: m.budget, part: m.part, full: m.full, once: m.once, cerr: sc.a.d.Cerr}
	s.nbad = s.start
	s.open(sink)
	cur := []mstate{{"new", 0}}
	closed := false
	var bounds []int
	bad := func(i int, what string, flt bool) {
		if rec != nil {
			return
		}
		var obs []string
		sc.run(rep, sc.sess(), hist[:i+1], m, nil, &obs)
		var allowed []string
		if flt {
			allowed = append(allowed, "(the stream failed during this call)")
		}
		for _, st := range cur {
			for _, e := range sc.a.edges[st][hist[i].Key] {
				if e.Flt == flt {
					allowed = append(allowed, fmt.Sprintf("at %s/%d: %s emitting %v part=%v", st.St, st.Nx, e.O.C, e.O.Out, e.O.Part))
				}
			}
		}
		rep.violate(M{"file": fmt.Sprintf("%+v", sc.a.d), "history": sc.names(hist), "failing_call": i + 1, "observed": obs,
			"problem": what, "allowed_by_model": allowed, "fault": fmt.Sprintf("%+v", m), "emitted_hex": fmt.Sprintf("%x", sink.buf), "detail": s.detail})
	}
	for i, c := range hist {
		was := sink.fired
		o := s.do(c)
		flt := !was && sink.fired
		if rec != nil {
			*rec = append(*rec, fmt.Sprintf("%s -> %s emitted=%v part=%v %s", c.Key, o.C, o.Out, o.Part, s.detail))
			s.detail = ""
			continue
		}
		bounds = append(bounds, len(sink.buf))
		if len(o.Out) > 1 {
			bounds = append(bounds, 8)
		}
		next := sc.a.step(cur, c.Key, flt, o, nil, cov)
		if len(next) == 0 {
			bad(i, fmt.Sprintf("%s answered %s emitting %v (part=%v), which the specification does not allow here", c.Key, o.C, o.Out, o.Part), flt)
			return nil
		}
		cur = next
		closed = closed || c.Op == "Close"
		if s.mut != "" {
			bad(i, s.mut, flt)
			return nil
		}
		want := 0
		if closed {
			want = 1
		}
		if sink.closed != want {
			bad(i, fmt.Sprintf("underlying stream closed %d times, want %d", sink.closed, want), flt)
			return nil
		}
	}
	return bounds
}

func runWriterAuto(prop, edges, out, tier string, seed int64) {
	autos, nEdges := loadWriterAutomata(edges)
	rep := newReport()
	cov := make([]uint32, nEdges)
	rnd := rand.New(rand.NewSource(seed))
	thorough := tier == "thorough"
	var ds []wshape
	for d := range autos {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return fmt.Sprint(ds[i]) < fmt.Sprint(ds[j]) })
	var scs []*wscenario
	for _, d := range ds {
		a := autos[d]
		var keys []string
		for k := range a.calls {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var all []WCall
		var good WCall
		for _, k := range keys {
			c := a.calls[k]
			if c.Op == "Header" && c.Arg == "good" {
				good = c
			}
			all = append(all, c)
		}
		// Both entry points of IndexData, alternating.
		for i := range all {
			all[i].Ptr = all[i].Op == "IndexData" && i%2 == 0
		}
		// Calls that matter at depth.
		var few []WCall
		for _, c := range all {
			switch {
			case c.Op == "Data", c.Op == "Close", c.Op == "Header" && c.Arg == "good",
				c.Op == "Index" && (c.IxNS == 2 || c.IxN == d.N) && c.IxN >= d.N-1,
				c.Op == "IndexData" && len(c.Feats) > 0 && len(c.Feats) >= d.N-1 && len(c.Feats) <= d.N+1:
				few = append(few, c)
			}
		}
		refused, bad := badHeaders(d)
		add := func(calls, first []WCall, depth, fault int) {
			scs = append(scs, &wscenario{a: a, calls: calls, first: first, depth: depth, fault: fault, seed: rnd.Int63(),
				ref: refused[len(scs)%len(refused)], bad: bad[len(scs)%len(bad)]})
		}
		x := 0
		if thorough {
			x = 1
		}
		switch prop {
		case "P08":
			if d.Cerr {
				add(few, []WCall{good}, 3, 0)
				break
			}
			for i := 0; i < len(bad); i++ {
				add(all, nil, 2, 0)
			}
			add(all, nil, 3+x, 0)
			add(all, []WCall{good}, 3+x, 0)
			add(few, []WCall{good}, 4+x, 0)
		case "P09":
			if d.Cerr {
				break
			}
			add(few, []WCall{good}, 3+x, 1)
			add(few, []WCall{good}, 2+x, 2)
		}
	}
	parallel(len(scs), 8, func(i int) {
		sc := scs[i]
		s := sc.sess()
		s2 := sc.sess()
		r := rand.New(rand.NewSource(sc.seed))
		hist := append([]WCall(nil), sc.first...)
		var n int64
		var rec func(d int)
		rec = func(d int) {
			if rep.stop() {
				return
			}
			if d > 0 {
				for _, c := range sc.calls {
					hist = append(hist, c)
					rec(d - 1)
					hist = hist[:len(hist)-1]
				}
				return
			}
			h := hist
			if thorough && prop == "P09" && r.Intn(3) > 0 {
				return // a third of the long histories, with all their faults
			}
			if prop == "P09" {
				h = append(hist[:len(hist):len(hist)], sc.a.calls[closeKey(sc.a)])
			}
			n++
			s.start = int(n) % 30
			s2.start = s.start
			bounds := sc.run(rep, s, h, wmode{budget: -1}, cov, nil)
			if sc.fault == 0 || len(bounds) == 0 {
				return
			}
			total := bounds[len(bounds)-1]
			set := map[int]bool{}
			if sc.fault == 2 {
				for b := 0; b < total; b++ {
					set[b] = true
				}
			} else {
				for _, b := range bounds {
					for _, x := range []int{b - 1, b, b + 1} {
						set[x] = true
					}
				}
				set[r.Intn(total+1)] = true
				set[r.Intn(total+1)] = true
			}
			for b := range set {
				if b < 0 || b >= total {
					continue
				}
				for m := 0; m < 6; m++ {
					n++
					sc.run(rep, s2, h, wmode{budget: b, part: m%3 == 1, full: m%3 == 2, once: m >= 3}, cov, nil)
				}
			}
		}
		rec(sc.depth)
		rep.eval.Add(n)
	})
	var covered int64
	for _, c := range cov {
		covered += int64(c)
	}
	rep.Counts["scenarios"] = int64(len(scs))
	rep.Counts["model_transitions_exported"] = int64(nEdges)
	rep.Counts["model_transitions_replayed"] = covered
	for i := 0; i < 3 && len(scs) > 0; i++ {
		sc := scs[rnd.Intn(len(scs))]
		h := append([]WCall(nil), sc.first...)
		for len(h) <= sc.depth {
			h = append(h, sc.calls[rnd.Intn(len(sc.calls))])
		}
		var o []string
		sc.run(rep, sc.sess(), h, wmode{budget: -1}, nil, &o)
		rep.sample(M{"file": fmt.Sprintf("%+v", sc.a.d), "answers": o}, 3)
	}
	rep.write(out)
}

func closeKey(a *wauto) string {
	for k, c := range a.calls {
		if c.Op == "Close" {
			return k
		}
	}
	die("no Close in the model")
	return ""
}

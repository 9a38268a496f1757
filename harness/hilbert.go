package main

// Hilbert sorting: large lists against the automaton exported from
// HilbertMC.tla, and random sorts recorded for HilbertTrace.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

type curve struct {
	// [sw][fl][bx][by] -> digit, next sw, next fl
	t [2][2][2][2][3]uint32
}

func b2i(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func loadCurve(path string) *curve {
	fh, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	c := &curve{}
	sc := bufio.NewScanner(fh)
	n := 0
	for sc.Scan() {
		var r struct {
			SW, FL   bool
			BX, BY   int
			Digit    uint32
			NSW, NFL bool
		}
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			die("curve: %v", err)
		}
		c.t[b2i(r.SW)][b2i(r.FL)][r.BX][r.BY] = [3]uint32{r.Digit, b2i(r.NSW), b2i(r.NFL)}
		n++
	}
	if n != 16 {
		die("%d rows of the curve", n)
	}
	return c
}

func (c *curve) position(x, y uint32) uint32 {
	var d, sw, fl uint32
	for i := 15; i >= 0; i-- {
		e := &c.t[sw][fl][x>>uint(i)&1][y>>uint(i)&1]
		d = d<<2 | e[0]
		sw, fl = e[1], e[2]
	}
	return d
}

const hmax = 65535

// axis maps cells to coordinates: cell c of 65536 between lo and hi.
type axis struct{ lo, hi float64 }

func (a axis) mid(c int) float64 {
	if c == hmax {
		return a.hi
	}
	return a.lo + (float64(c)+0.5)/hmax*(a.hi-a.lo)
}

// span gives an interval centred in cell c.
func (a axis) span(c int, r *rand.Rand) (float64, float64) {
	m := a.mid(c)
	if c == hmax || a.hi == a.lo {
		return m, m
	}
	w := (a.hi - a.lo) / hmax
	h := []float64{0, w / 8, w * 3, w * 40000}[r.Intn(4)]
	if math.IsInf(m-h, 0) || math.IsInf(m+h, 0) {
		return m, m
	}
	return m - h, m + h
}

func randAxis(r *rand.Rand) axis {
	switch r.Intn(9) {
	case 0:
		return axis{0, hmax}
	case 6: // The sum of two coordinates is not a number any more.
		return axis{1e308, 1.7e308}
	case 7:
		return axis{-1.7e308, -0.9e308}
	case 8: // Denormal numbers.
		return axis{-1e-310, 3e-310}
	case 1:
		return axis{-hmax * 16, hmax * 16}
	case 2:
		return axis{-180, 180}
	case 3:
		return axis{1e-6, 1e-6 + 1e-9}
	case 4:
		return axis{-1e200, 3e200}
	}
	lo := r.NormFloat64() * 100
	return axis{lo, lo + r.ExpFloat64()*100 + 1e-3}
}

func hilbertList(r *rand.Rand, cells [][2]int, ax, ay axis) []packedrtree.Ref {
	refs := make([]packedrtree.Ref, len(cells))
	for i, c := range cells {
		refs[i].Offset = int64(i)
		refs[i].XMin, refs[i].XMax = ax.span(c[0], r)
		refs[i].YMin, refs[i].YMax = ay.span(c[1], r)
	}
	return refs
}

func randCells(r *rand.Rand, n int) [][2]int {
	out := make([][2]int, 0, n)
	near := func() int {
		b := 1 << uint(r.Intn(17))
		v := b*(1+r.Intn(3)) + r.Intn(4) - 2
		if r.Intn(2) == 0 {
			v = hmax - v
		}
		if v < 0 || v > hmax {
			v = []int{0, hmax}[r.Intn(2)]
		}
		return v
	}
	mode := r.Intn(4)
	x0, y0 := r.Intn(hmax), r.Intn(hmax)
	for i := 0; i < n; i++ {
		var x, y int
		switch mode {
		case 0:
			x, y = r.Intn(hmax+1), r.Intn(hmax+1)
		case 1:
			x, y = near(), near()
		case 2: // close together
			x, y = (x0+r.Intn(9))&hmax, (y0+r.Intn(9))&hmax
		case 3:
			x, y = near(), r.Intn(hmax+1)
			if r.Intn(2) == 0 {
				x, y = y, x
			}
		}
		if i > 0 && r.Intn(8) == 0 {
			x, y = out[r.Intn(i)][0], out[r.Intn(i)][1]
		}
		out = append(out, [2]int{x, y})
	}
	return out
}

// bigSort sorts a large list and checks it with the exported automaton.
func (c *curve) bigSort(r *rand.Rand, cells [][2]int, flatx, flaty bool) (problem string) {
	ax, ay := randAxis(r), randAxis(r)
	if flatx {
		ax.hi = ax.lo
	}
	if flaty {
		ay.hi = ay.lo
	}
	refs := hilbertList(r, cells, ax, ay)
	orig := append([]packedrtree.Ref(nil), refs...)
	bounds := packedrtree.Box{XMin: ax.lo, YMin: ay.lo, XMax: ax.hi, YMax: ay.hi}
	if p := guard(func() { packedrtree.HilbertSort(refs, bounds) }); p != nil {
		return fmt.Sprint("panic: ", p)
	}
	seen := make([]bool, len(refs))
	var prev uint32 = math.MaxUint32
	var prevCell [2]int
	for i, x := range refs {
		if x.Offset < 0 || x.Offset >= int64(len(orig)) || seen[x.Offset] || orig[x.Offset] != x {
			return fmt.Sprintf("reference %v at %d of the result was not in the list, or is there twice", x, i)
		}
		seen[x.Offset] = true
		cell := cells[x.Offset]
		e := cell
		if flatx {
			e[0] = 0
		}
		if flaty {
			e[1] = 0
		}
		p := c.position(uint32(e[0]), uint32(e[1]))
		if p > prev {
			return fmt.Sprintf("cell %v (position %d) comes after cell %v (position %d), bounds %v", cell, p, prevCell, prev, bounds)
		}
		prev, prevCell = p, cell
	}
	return ""
}

// presort arranges the cells the way callers may have sorted them before.
func (c *curve) presort(r *rand.Rand, cells [][2]int) {
	key := func(x [2]int) int { return x[0] }
	switch r.Intn(8) {
	case 0:
	case 1:
		key = func(x [2]int) int { return -x[0] }
	case 2:
		key = func(x [2]int) int { return x[1] }
	case 3:
		key = func(x [2]int) int { return -x[1] }
	case 4:
		key = func(x [2]int) int { return int(c.position(uint32(x[0]), uint32(x[1]))) }
	case 5:
		key = func(x [2]int) int { return -int(c.position(uint32(x[0]), uint32(x[1]))) }
	case 6: // a few exceptions
		sort.SliceStable(cells, func(a, b int) bool { return cells[a][0] < cells[b][0] })
		for k := r.Intn(3); k >= 0 && len(cells) > 0; k-- {
			a, b := r.Intn(len(cells)), r.Intn(len(cells))
			cells[a], cells[b] = cells[b], cells[a]
		}
		return
	default:
		return
	}
	sort.SliceStable(cells, func(a, b int) bool { return key(cells[a]) < key(cells[b]) })
}

func runHilbert(edges, out, tier string, seed int64) {
	c := loadCurve(edges)
	rep := newReport()
	thorough := tier == "thorough"
	big, per := 64, 90
	if thorough {
		big, per = 1200, 900
	}
	parallel(big, 8, func(i int) {
		if rep.stop() {
			return
		}
		r := rand.New(rand.NewSource(seed*65537 + int64(i)))
		var cells [][2]int
		switch i % 4 {
		case 0: // all cells of an aligned or unaligned block
			x0, y0 := r.Intn(256)*256, r.Intn(256)*256
			if r.Intn(2) == 0 {
				x0, y0 = r.Intn(hmax-255), r.Intn(hmax-255)
			}
			if i == 0 {
				x0, y0 = 0, 0
			}
			for k := 0; k < 256*256; k++ {
				cells = append(cells, [2]int{x0 + k%256, y0 + k/256})
			}
			r.Shuffle(len(cells), func(a, b int) { cells[a], cells[b] = cells[b], cells[a] })
		case 1: // one cell in every block of a grid
			for k := 0; k < 256*256; k++ {
				cells = append(cells, [2]int{k%256*256 + r.Intn(256), k/256*256 + r.Intn(256)})
			}
		default:
			cells = randCells(r, 60000)
			if i%8 == 3 {
				c.presort(r, cells)
			}
		}
		p := c.bigSort(r, cells, i%16 == 2, i%16 == 6)
		if p != "" {
			rep.violate(M{"problem": p})
		}
		rep.eval.Add(1)
		rep.count("cells sorted", int64(len(cells)))
	})
	shards := 8
	traces := make([]string, shards)
	parallel(shards, 8, func(sh int) {
		r := rand.New(rand.NewSource(seed*7 + int64(sh)))
		name := fmt.Sprintf("hilbert%d.ndjson", sh)
		traces[sh] = name
		tr := newTrace(out, name)
		for i := 0; i < per; i++ {
			n := r.Intn(25)
			if i%15 == 2 {
				n = r.Intn(400)
			}
			ax, ay := randAxis(r), randAxis(r)
			flatx, flaty := r.Intn(8) == 0, r.Intn(8) == 0
			if flatx {
				ax.hi = ax.lo
			}
			if flaty {
				ay.hi = ay.lo
			}
			cells := randCells(r, n)
			if r.Intn(4) == 0 {
				c.presort(r, cells)
			}
			refs := hilbertList(r, cells, ax, ay)
			logged := make([][]int, n)
			for k := range cells {
				logged[k] = cells[k][:]
			}
			if r.Intn(3) == 0 {
				for k := range refs {
					if r.Intn(5) == 0 {
						refs[k].Box, logged[k] = packedrtree.EmptyBox, []int{}
					}
				}
			}
			orig := append([]packedrtree.Ref(nil), refs...)
			b := packedrtree.Box{XMin: ax.lo, YMin: ay.lo, XMax: ax.hi, YMax: ay.hi}
			if r.Intn(12) == 0 { // bounds without a grid
				b = packedrtree.EmptyBox
				if r.Intn(2) == 0 {
					b = packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}
				}
				for k := range logged {
					logged[k] = []int{}
				}
			}
			tr.emit(M{"e": "begin", "cells": logged, "flatx": flatx, "flaty": flaty, "bounds": fmt.Sprint(b)})
			outIDs := []int{}
			if p := guard(func() { packedrtree.HilbertSort(refs, b) }); p != nil {
				tr.emit(M{"e": "panic", "detail": fmt.Sprint(p)})
				continue
			}
			for _, x := range refs {
				id := 0
				if x.Offset >= 0 && x.Offset < int64(n) && orig[x.Offset] == x {
					id = int(x.Offset) + 1
				}
				outIDs = append(outIDs, id)
			}
			tr.emit(M{"e": "sorted", "out": outIDs})
			rep.count("recorded sorts", 1)
			if i == 20 {
				rep.sample(M{"cells": logged, "sorted": outIDs, "bounds": fmt.Sprint(b)}, 2)
			}
		}
		for i := 0; i < per/2; i++ {
			if p := c.indexOrder(tr, r, false); p != "" {
				rep.violate(M{"problem": p})
			}
			rep.count("recorded orders of written indexes", 1)
		}
		for i := 0; i < per/5; i++ {
			if p := c.indexOrder(nil, r, true); p != "" {
				rep.violate(M{"problem": p})
			}
			rep.count("large written indexes", 1)
		}
		tr.close()
	})
	rep.Traces = traces
	rep.write(out)
}

// indexOrder records the order of the references in an index that the writer
// made, over the bounds of all features. The order of a large index is checked
// here, with the exported automaton.
func (c *curve) indexOrder(tr *Trace, r *rand.Rand, large bool) (problem string) {
	n := r.Intn(20)
	if large {
		n = []int{300, 1000, 2000, 5000}[r.Intn(4)] + r.Intn(1000)
	} else if r.Intn(12) == 0 {
		n = r.Intn(200)
	}
	ax, ay := randAxis(r), randAxis(r)
	flatx, flaty := r.Intn(10) == 0, r.Intn(10) == 0
	if flatx {
		ax.hi = ax.lo
	}
	if flaty {
		ay.hi = ay.lo
	}
	cells := append(randCells(r, n), [2]int{0, 0}, [2]int{hmax, hmax})
	if r.Intn(2) == 0 { // no two in the same column, or row
		step, a := (hmax-1)/(n+1), r.Intn(2)
		for k := range cells[:n] {
			cells[k][a] = 1 + k*step + r.Intn(step)
		}
	}
	if !large && r.Intn(2) == 0 {
		r.Shuffle(len(cells), func(a, b int) { cells[a], cells[b] = cells[b], cells[a] })
	} else {
		c.presort(r, cells)
	}
	points := r.Intn(2) == 0 // the boxes are as sorted as the cells
	refs := hilbertList(r, cells, ax, ay)
	// The corners make the bounds those of the grid.
	lo, hi := false, false
	for k := range refs {
		if !lo && cells[k] == [2]int{0, 0} {
			refs[k].Box, lo = packedrtree.Box{XMin: ax.lo, YMin: ay.lo, XMax: ax.lo, YMax: ay.lo}, true
		} else if !hi && cells[k] == [2]int{hmax, hmax} {
			refs[k].Box, hi = packedrtree.Box{XMin: ax.hi, YMin: ay.hi, XMax: ax.hi, YMax: ay.hi}, true
		} else if points {
			x, y := ax.mid(cells[k][0]), ay.mid(cells[k][1])
			refs[k].Box = packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}
		}
	}
	logged := make([][]int, len(refs))
	fs := make([]flat.Feature, len(refs))
	at := map[int64]int{}
	pos := int64(0)
	for k := range refs {
		x := &refs[k]
		if x.XMin < ax.lo || x.XMax > ax.hi {
			x.XMin, x.XMax = ax.mid(cells[k][0]), ax.mid(cells[k][0])
		}
		if x.YMin < ay.lo || x.YMax > ay.hi {
			x.YMin, x.YMax = ay.mid(cells[k][1]), ay.mid(cells[k][1])
		}
		if ax.lo == x.XMin && ax.lo == x.XMax {
			cells[k][0] = 0
		}
		if ay.lo == x.YMin && ay.lo == x.YMax {
			cells[k][1] = 0
		}
		logged[k] = cells[k][:]
		g := &Geom{XY: []float64{x.XMin, x.YMax, x.XMax, x.YMin}}
		if r.Intn(4) == 0 {
			g = &Geom{Parts: []*Geom{{XY: g.XY[:2]}, {XY: g.XY[2:]}}}
		}
		corner := cells[k] == [2]int{0, 0} || cells[k] == [2]int{hmax, hmax}
		if !corner && !points && r.Intn(15) == 0 {
			g, logged[k] = nil, []int{}
		}
		b := EncodeFeature(FeatSpec{Geom: g, Props: make([]byte, r.Intn(20))})
		fs[k] = *flat.GetSizePrefixedRootAsFeature(b, 0)
		at[pos] = k + 1
		pos += int64(len(b))
	}
	if tr != nil {
		tr.emit(M{"e": "begin", "cells": logged, "flatx": flatx, "flaty": flaty})
	}
	ns := []int{2, 3, 16, 65535}[r.Intn(4)]
	var buf bytes.Buffer
	w := flatgeobuf.NewFileWriter(&buf)
	hn, err := w.Header(flat.GetSizePrefixedRootAsHeader(EncodeHeader(HeaderSpec{Count: uint64(len(fs)), NodeSize: uint16(ns)}), 0))
	if err != nil {
		return fmt.Sprint("Header: ", err)
	}
	if p := guard(func() { _, err = w.IndexData(fs) }); p != nil || err != nil {
		return fmt.Sprint("IndexData: ", p, err)
	}
	end := buf.Len() - int(pos)
	if end-40*len(fs) < hn {
		return fmt.Sprintf("a file of %d features, %d bytes together, has %d bytes", len(fs), pos, buf.Len())
	}
	outIDs := []int{}
	for k := 0; k < len(fs); k++ {
		leaf := buf.Bytes()[end-40*(len(fs)-k):]
		outIDs = append(outIDs, at[int64(binary.LittleEndian.Uint64(leaf[32:]))])
	}
	if tr != nil {
		tr.emit(M{"e": "sorted", "out": outIDs})
		return ""
	}
	seen := make([]bool, len(fs)+1)
	var prev uint32 = math.MaxUint32
	for i, id := range outIDs {
		if id == 0 || seen[id] {
			return fmt.Sprintf("entry %d of an index of %d features is of no feature, or of one that is there twice", i, len(fs))
		}
		seen[id] = true
		e := logged[id-1]
		if len(e) == 0 {
			continue
		}
		x, y := e[0], e[1]
		if flatx {
			x = 0
		}
		if flaty {
			y = 0
		}
		p := c.position(uint32(x), uint32(y))
		if p > prev {
			return fmt.Sprintf("entry %d of an index of %d features is of one in cell %v (position %d), after one at position %d", i, len(fs), e, p, prev)
		}
		prev = p
	}
	return ""
}

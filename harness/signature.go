package main

// Signatures and headers: rows exported from SignatureMC and random damaged
// files recorded for SignatureTrace.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// openStream presents bytes as a seekable or non-seekable input.
func openStream(b []byte, r *rand.Rand) (io.Reader, *Stream) {
	s := &SeekStream{}
	s.rnd = r
	s.reset(b, r.Intn(numFrag), -1, false)
	if r.Intn(2) == 0 {
		return onlyReader{&s.Stream}, &s.Stream
	}
	return s, &s.Stream
}

type sigFile struct {
	b []byte
	z int
}

func (f *sigFile) bytes() []byte {
	if f.z == 0 {
		return f.b
	}
	return append(append(make([]byte, 0, len(f.b)+f.z), f.b...), make([]byte, f.z)...)
}

// tryMagic checks the signature; tryOpen opens the file.
func tryMagic(f *sigFile, r *rand.Rand) (e M, problem string) {
	rd, st := openStream(f.bytes(), r)
	e = M{"e": "begin", "b": intsOf(f.b), "z": f.z, "ok": false, "major": 0, "patch": 0, "consumed": 0}
	if p := guard(func() {
		v, err := flatgeobuf.Magic(rd)
		e["ok"] = err == nil
		if err == nil {
			e["major"], e["patch"] = int(v.Major), int(v.Patch)
		}
		e["consumed"] = int(st.pos)
	}); p != nil {
		return e, fmt.Sprintf("Magic panics on % .60x: %v", f.b, p)
	}
	return e, ""
}

func tryOpen(f *sigFile, r *rand.Rand, tr *Trace) (problem string) {
	rd, _ := openStream(f.bytes(), r)
	op := "NewFileReader"
	if p := guard(func() {
		fr := flatgeobuf.NewFileReader(rd)
		op = "Header"
		_, err := fr.Header()
		tr.emit(M{"e": "open", "b": intsOf(f.b), "z": f.z, "ok": err == nil, "bits": strconv.IntSize})
		if err == nil {
			return
		}
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				op = "Header"
				_, err = fr.Header()
			case 1:
				op = "Index"
				_, err = fr.Index()
			case 2:
				op = "IndexSearch"
				_, err = fr.IndexSearch(packedrtree.Box{XMax: 1, YMax: 1})
			case 3:
				op = "Data"
				_, err = fr.Data(make([]flat.Feature, r.Intn(3)))
			case 4:
				op = "DataRem"
				_, err = fr.DataRem()
			case 5:
				op = "Rewind"
				err = fr.Rewind()
			}
			tr.emit(M{"e": "after", "op": op, "ok": err == nil})
		}
		op = "Close"
		if err = fr.Close(); err != nil {
			panic(fmt.Sprint("close failed: ", err))
		}
		if _, err = fr.Header(); err != flatgeobuf.ErrClosed {
			panic(fmt.Sprint("after close: ", err))
		}
	}); p != nil {
		return fmt.Sprintf("%s on % .200x (and %d zeros): %v", op, f.b, f.z, p)
	}
	return ""
}

var hdrCounts = []uint64{0, 1, 2, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 56, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
var hdrNodeSizes = []uint16{0, 1, 2, 3, 15, 16, 255, 256, 257, 258, 512, 32767, 32768, 65535}

// fieldPos finds a field of the root table of a size-prefixed buffer.
func fieldPos(b []byte, slot int) int {
	pos := int(rootPos(b))
	vt := pos - int(int32(binary.LittleEndian.Uint32(b[pos:])))
	if 4+2*slot >= int(binary.LittleEndian.Uint16(b[vt:])) {
		return -1
	}
	o := int(binary.LittleEndian.Uint16(b[vt+4+2*slot:]))
	if o == 0 {
		return -1
	}
	return pos + o
}

func randSigFile(r *rand.Rand) *sigFile {
	h := HeaderSpec{Count: hdrCounts[r.Intn(len(hdrCounts))], NodeSize: hdrNodeSizes[r.Intn(len(hdrNodeSizes))]}
	if r.Intn(4) == 0 {
		h.Count = r.Uint64() >> uint(r.Intn(64))
	}
	if r.Intn(4) == 0 {
		h.NodeSize = uint16(r.Intn(5))
	}
	if r.Intn(2) == 0 {
		h.Name = "layer"
	}
	if r.Intn(3) == 0 {
		h.Columns = schemaCols([]int{r.Intn(numTypes), r.Intn(numTypes)})
	}
	hdr := EncodeHeader(h)
	f := &sigFile{}
	f.b = append(append([]byte(nil), magicBytes...), hdr...)
	put := func(v uint32) { binary.LittleEndian.PutUint32(f.b[8:], v) }
	n := uint32(len(hdr) - 4)
	const max = 32 << 20
	switch r.Intn(10) {
	case 0, 1: // as encoded
		f.z = r.Intn(3) * r.Intn(5)
	case 2: // signature
		f.b[r.Intn(8)] = byte(r.Intn(256))
	case 3: // version
		f.b[3], f.b[7] = byte(r.Intn(6)), byte(r.Intn(256))
	case 4: // cut
		f.b = f.b[:r.Intn(len(f.b)+1)]
	case 5: // length longer than the table, present or not
		k := uint32(1 + r.Intn(60))
		put(n + k)
		f.z = int(k) - r.Intn(2)*(1+r.Intn(2))
		if f.z < 0 {
			f.z = 0
		}
	case 6: // short lengths
		put(uint32(r.Intn(int(n))))
		if r.Intn(2) == 0 {
			put(uint32(r.Intn(6)))
		}
	case 7: // long lengths, not present
		put([]uint32{max - 1, max, max + 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 4, 1 << 24, 1 << 16, 0x01000000 | n}[r.Intn(11)])
		f.z = r.Intn(100)
	case 9: // hardly a table at all
		k := 4 + r.Intn(14)
		h := make([]byte, k)
		for i := 0; i < r.Intn(4); i++ {
			h[r.Intn(k)] = byte([]int{0, 1, 2, 4, 6, 8, r.Intn(24), 255}[r.Intn(8)])
		}
		f.b = append(f.b[:12], h...)
		put(uint32(k))
	case 8: // damage inside the table
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := 12 + r.Intn(int(n))
			switch r.Intn(4) {
			case 0:
				f.b[i] = byte(r.Intn(256))
			case 1:
				f.b[i] ^= 1 << uint(r.Intn(8))
			case 2:
				f.b[i] = 255
			case 3: // the fields the reader looks at, in the virtual table
				pos := int(rootPos(hdr))
				vt := pos - int(int32(binary.LittleEndian.Uint32(hdr[pos:])))
				j := []int{4, pos, vt, vt + 20, vt + 22}[r.Intn(5)]
				if j+2 <= len(hdr) {
					binary.LittleEndian.PutUint16(f.b[8+j:], []uint16{uint16(r.Intn(80)), uint16(r.Intn(65536)), 65535, uint16(len(hdr) - r.Intn(12))}[r.Intn(4)])
				}
			}
		}
	}
	return f
}

func runSignature(edges, out, tier string, seed int64) {
	rep := newReport()
	fh, err := os.Open(edges)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	type row struct {
		B     []int `json:"b"`
		Z     int   `json:"z"`
		Ok    bool  `json:"ok"`
		Major int   `json:"major"`
		Patch int   `json:"patch"`
	}
	r := rand.New(rand.NewSource(seed))
	n := 0
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() && !rep.stop() {
		var x row
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			die("row: %v", err)
		}
		f := &sigFile{b: bytesOf(x.B), z: x.Z}
		e, p := tryMagic(f, r)
		if p == "" && (e["ok"] != x.Ok || x.Ok && (e["major"] != x.Major || e["patch"] != x.Patch) || e["consumed"].(int) > 8) {
			p = fmt.Sprintf("Magic on % x (%d more bytes) answers %v, want accepted: %v", f.b, f.z, e, x.Ok)
		}
		if p != "" {
			rep.violate(M{"problem": p})
		}
		n++
	}
	rep.Eval = int64(n)
	rep.count("signatures from the model", int64(n))

	files, sessions := 8, 700
	if tier == "thorough" {
		files, sessions = 48, 4000
	}
	for i := 0; i < files; i++ {
		rep.Traces = append(rep.Traces, fmt.Sprintf("sig%d.ndjson", i))
	}
	parallel(files, 8, func(k int) {
		r := rand.New(rand.NewSource(seed*7919 + int64(k)))
		tr := newTrace(out, rep.Traces[k])
		defer tr.close()
		for i := 0; i < sessions && !rep.stop(); i++ {
			f := randSigFile(r)
			if i == 0 && k < 6 {
				// Around the limit of the header length.
				f = &sigFile{}
				hdr := EncodeHeader(HeaderSpec{Count: 3, NodeSize: 16})
				f.b = append(append([]byte(nil), magicBytes...), hdr...)
				lim := 32<<20 + []int{-1, 0, 1, 0, 0, 4096}[k]
				binary.LittleEndian.PutUint32(f.b[8:], uint32(lim))
				f.z = 12 + lim - len(f.b) + []int{0, 0, 0, 7, -1, 0}[k]
			}
			e, p := tryMagic(f, r)
			if p == "" {
				tr.emit(e)
				p = tryOpen(f, r, tr)
			}
			if p != "" {
				rep.violate(M{"problem": p})
			}
		}
	})
	rep.count("headers tried", int64(files*sessions))
	rep.sample(M{"kind": "headers with random counts, node sizes, lengths, cuts and damage"}, 1)
	rep.write(out)
}

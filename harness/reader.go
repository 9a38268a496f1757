package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// Call is one reader call.
type Call struct {
	Op string
	K  int             // Data: buffer size
	Q  string          // Search: name of the query
	B  packedrtree.Box // Search: the query
}

func (c Call) String() string {
	switch c.Op {
	case "Data":
		return fmt.Sprintf("Data(%d)", c.K)
	case "Search":
		return "Search(" + c.Q + ")"
	}
	return c.Op
}

// Ans is an observed answer, in the terms of FileReader.tla.
type Ans struct {
	C  string
	Fs []int
	T  string
}

func (a Ans) key() string { return fmt.Sprint(a.C, a.Fs, a.T) }

// kept is a returned feature with what it should contain.
type kept struct {
	f  *flat.Feature
	id int
}

// Session drives one real reader over one stream.
type Session struct {
	f      *File
	st     *Stream
	r      *flatgeobuf.FileReader
	buf    []flat.Feature
	kept   []kept
	trees  []*packedrtree.PackedRTree
	hdr    *flat.Header
	errs   []error // errors returned so far
	detail string  // last error or panic text
	keep   bool
	closed bool
	closes int
}

var poison = flat.Feature{}

func (s *Session) open(f *File, st *Stream, rd io.Reader) {
	s.f, s.st = f, st
	s.r = flatgeobuf.NewFileReader(rd)
	s.kept, s.trees, s.errs = s.kept[:0], s.trees[:0], s.errs[:0]
	s.hdr, s.detail, s.closed, s.closes = nil, "", false, 0
}

func (s *Session) featID(ft *flat.Feature) int {
	t := ft.Table()
	id, ok := s.f.ids[string(t.Bytes)]
	if !ok {
		return 0
	}
	if uint32(t.Pos) != rootPos(t.Bytes) {
		return 0
	}
	return id
}

func (s *Session) ids(fs []flat.Feature) []int {
	out := make([]int, 0, len(fs))
	for i := range fs {
		id := s.featID(&fs[i])
		out = append(out, id)
		if s.keep {
			s.kept = append(s.kept, kept{&fs[i], id})
		}
	}
	return out
}

func (s *Session) class(op string, err error) string {
	if err == nil {
		return "ok"
	}
	s.detail = err.Error()
	for _, e := range s.errs {
		if e == err {
			return "err" // the same sticky error again
		}
	}
	if errors.Is(err, flatgeobuf.ErrClosed) {
		return "closed"
	}
	if errors.Is(err, flatgeobuf.ErrNoIndex) {
		return "noindex"
	}
	if (op == "Data" || op == "DataRem") && errors.Is(err, io.EOF) {
		return "eof"
	}
	s.errs = append(s.errs, err)
	return "err"
}

// do performs a call on the real reader.
func (s *Session) do(c Call) (a Ans) {
	wasFired := s.st.fired
	defer func() {
		if p := recover(); p != nil {
			s.detail = fmt.Sprint("panic: ", p)
			a = Ans{"panic", nil, "-"}
		}
	}()
	a.T = "-"
	var err error
	switch c.Op {
	case "Header":
		var h *flat.Header
		h, err = s.r.Header()
		a.C = s.class(c.Op, err)
		if err == nil {
			s.hdr = h
			if !s.headerOK() {
				a.C = "badheader"
			}
		}
	case "Index":
		var t *packedrtree.PackedRTree
		t, err = s.r.Index()
		a.C = s.class(c.Op, err)
		if err == nil {
			if t == nil {
				a.T = "nil"
			} else if s.treeOK(t) {
				a.T = "tree"
				if s.keep {
					s.trees = append(s.trees, t)
				}
			} else {
				a.T = "badtree"
			}
		} else if t != nil {
			a.T = "tree with error"
		}
	case "Search":
		var fs []flat.Feature
		fs, err = s.r.IndexSearch(c.B)
		a.C = s.class(c.Op, err)
		a.Fs = s.ids(fs)
	case "Data":
		if cap(s.buf) < c.K || s.keep {
			s.buf = make([]flat.Feature, c.K)
		}
		p := s.buf[:c.K]
		var n int
		n, err = s.r.Data(p)
		a.C = s.class(c.Op, err)
		if n < 0 || n > len(p) {
			a.C = fmt.Sprintf("bad count %d", n)
		} else {
			a.Fs = s.ids(p[:n])
		}
	case "DataRem":
		var fs []flat.Feature
		fs, err = s.r.DataRem()
		a.C = s.class(c.Op, err)
		a.Fs = s.ids(fs)
	case "Rewind":
		err = s.r.Rewind()
		a.C = s.class(c.Op, err)
	case "Close":
		err = s.r.Close()
		a.C = s.class(c.Op, err)
		s.closed = true
	default:
		die("unknown op %q", c.Op)
	}
	if !wasFired && s.st.fired && a.C == "err" && !errors.Is(err, errInjected) {
		a.C = "err without its cause"
	}
	return a
}

func (s *Session) headerOK() bool {
	t := s.hdr.Table()
	return bytes.Equal(t.Bytes, s.f.Hdr) && uint32(t.Pos) == rootPos(s.f.Hdr)
}

func (s *Session) treeOK(t *packedrtree.PackedRTree) bool {
	var b bytes.Buffer
	_, err := t.Marshal(&b)
	return err == nil && bytes.Equal(b.Bytes(), s.f.Idx)
}

// finish checks what must hold at the end of a history; it returns a
// description of the problem, if any.
func (s *Session) finish() string {
	want := 0
	if s.closed {
		want = 1
	}
	if s.st.closed != want {
		return fmt.Sprintf("underlying stream closed %d times, want %d", s.st.closed, want)
	}
	if s.hdr != nil && !s.headerOK() {
		return "header changed after it was returned"
	}
	for i := range s.kept {
		if s.featID(s.kept[i].f) != s.kept[i].id {
			return fmt.Sprintf("feature %d changed after it was returned", s.kept[i].id)
		}
	}
	for _, t := range s.trees {
		if !s.treeOK(t) {
			return "index changed after it was returned"
		}
	}
	return ""
}

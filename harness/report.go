package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
)

// Report is what a driver run found, read by bin/check.py.
type Report struct {
	mu         sync.Mutex
	Eval       int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []interface{}    `json:"samples"`
	Violations []interface{}    `json:"violations"`
	NViol      int64            `json:"n_violations"`
	nviol      atomic.Int64
	eval       atomic.Int64
	Known      []string               `json:"known"`
	Traces     []string               `json:"traces"`
	Info       map[string]interface{} `json:"info"`
}

func newReport() *Report {
	return &Report{Counts: map[string]int64{}, Info: map[string]interface{}{}}
}

func (r *Report) violate(v interface{}) {
	r.nviol.Add(1)
	r.mu.Lock()
	if len(r.Violations) < 5 {
		r.Violations = append(r.Violations, v)
	}
	r.mu.Unlock()
}

func (r *Report) stop() bool { return r.nviol.Load() >= 5 }

func (r *Report) sample(v interface{}, max int) {
	r.mu.Lock()
	if len(r.Samples) < max {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

func (r *Report) count(k string, n int64) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}

func (r *Report) known(k string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.Known {
		if x == k {
			return
		}
	}
	r.Known = append(r.Known, k)
}

func (r *Report) write(dir string) {
	r.NViol = r.nviol.Load()
	r.Eval += r.eval.Load()
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		die("report: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "report.json"), b, 0o644); err != nil {
		die("report: %v", err)
	}
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(3)
}

// Trace is an NDJSON trace file.
type Trace struct {
	f *os.File
	n int
}

func newTrace(dir, name string) *Trace {
	f, err := os.Create(filepath.Join(dir, name))
	if err != nil {
		die("trace: %v", err)
	}
	return &Trace{f: f}
}

func (t *Trace) emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		die("trace: %v", err)
	}
	if bytes.Contains(b, []byte(":null")) {
		die("trace: null in %s", b)
	}
	t.f.Write(append(b, '\n'))
	t.n++
}

func (t *Trace) close() { t.f.Close() }

// parallel runs fn(i) for i in [0, n) on all cores.
func parallel(n, workers int, fn func(i int)) {
	part, parts := 0, 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		if _, err := fmt.Sscanf(s, "%d/%d", &part, &parts); err != nil {
			die("VERIF_SHARD: %v", err)
		}
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i%parts == part {
					fn(i)
				}
			}
		}()
	}
	wg.Wait()
}

type M = map[string]interface{}

package main

// C23: readers that fail (spec/IO.tla).

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/avast/apkparser"
)

type ioFault struct {
	K    int    `json:"k"`
	Kind string `json:"kind"`
	Mode string `json:"mode"`
}

var errPlanned = errors.New("planned failure")

// faultyReader fails as planned.
type faultyReader struct {
	rd    *bytes.Reader
	plan  []ioFault
	k     int
	on    string // the failure from now on
	fired int
}

func (f *faultyReader) next() string {
	f.k++
	if f.on != "" {
		f.fired++
		return f.on
	}
	for _, p := range f.plan {
		if p.K == f.k {
			f.fired++
			if p.Mode == "on" {
				f.on = p.Kind
			}
			return p.Kind
		}
	}
	return ""
}

func (f *faultyReader) read(p []byte, read func([]byte) (int, error)) (int, error) {
	switch f.next() {
	case "err":
		return 0, errPlanned
	case "ueof":
		return 0, io.ErrUnexpectedEOF
	case "eof":
		return 0, io.EOF
	case "part":
		n, _ := read(p[:len(p)/2])
		return n, errPlanned
	case "short":
		if len(p) > 1 {
			p = p[:(len(p)+1)/2]
		}
	}
	return read(p)
}

func (f *faultyReader) Read(p []byte) (int, error) { return f.read(p, f.rd.Read) }

func (f *faultyReader) Seek(o int64, w int) (int64, error) {
	switch f.next() {
	case "err", "part":
		return 0, errPlanned
	case "ueof":
		return 0, io.ErrUnexpectedEOF
	}
	return f.rd.Seek(o, w)
}

type faultyReaderAt struct{ faultyReader }

func (f *faultyReaderAt) ReadAt(p []byte, o int64) (int, error) {
	switch f.next() {
	case "err":
		return 0, errPlanned
	case "ueof":
		return 0, io.ErrUnexpectedEOF
	case "eof":
		return 0, io.EOF
	case "part":
		n, _ := f.rd.ReadAt(p[:len(p)/2], o)
		return n, errPlanned
	}
	return f.rd.ReadAt(p, o) // not allowed to be short
}

// ioScene: one call on one file.
type ioScene struct {
	File   string `json:"file"`
	Call   string `json:"call"`
	Rg     hRange `json:"range"`
	At     bool   `json:"readerAt"`
	Handle bool   `json:"handle"` // with an archive handle over another, sound, reader
	data   []byte
	base   string
	ops    int
}

func (s *ioScene) run(plan []ioFault) (out string, ops, fired int) {
	f := &faultyReaderAt{faultyReader{rd: bytes.NewReader(s.data), plan: plan}}
	var rd io.ReadSeeker = &f.faultyReader
	if s.At {
		rd = f
	}
	g := guard(callLimit, func() {
		var zip *apkparser.ZipReader
		if s.Handle {
			var err error
			if zip, err = apkparser.OpenZipReader(bytes.NewReader(s.data)); err != nil {
				zip = nil
			} else {
				defer zip.Close()
			}
		}
		out = say(s.Call, "", rd, zip, s.Rg, false)
	})
	if g.panicked != "" {
		out = "panic " + g.panicked
	} else if g.hang {
		out = "hang"
	}
	return out, f.k, f.fired
}

func (s *ioScene) prepare() {
	if s.data == nil {
		s.data, _ = base64.StdEncoding.DecodeString(s.File)
	}
	s.base, s.ops, _ = s.run(nil)
}

// try says how the outcome under a plan is neither an error nor the outcome without failures.
func (s *ioScene) try(plan []ioFault) (d string, fired, changed bool) {
	got, _, n := s.run(plan)
	if got == s.base {
		return "", n > 0, false
	}
	failing := false
	for _, p := range plan {
		if p.Kind != "short" {
			failing = true
		}
	}
	if !failing {
		return fmt.Sprintf("%s (range %v) with short reads %v says %.500s\notherwise it says %.500s", s.Call, s.Rg, plan, got, s.base), n > 0, true
	}
	if strings.HasPrefix(got, "panic") || strings.HasPrefix(got, "hang") || !saysError(s.Call, got, s.base) {
		return fmt.Sprintf("%s (range %v) failing to read as %v says %.500s\nwithout failures it says %.500s", s.Call, s.Rg, plan, got, s.base), n > 0, true
	}
	return "", n > 0, true
}

// saysError: the answer is an error (for each half of the two extractions).
func saysError(call, got, base string) bool {
	if call == "extract" { // two extractions in one answer
		g, b := strings.SplitN(got, "; ", 2), strings.SplitN(base, "; ", 2)
		if len(g) != 2 || len(b) != 2 {
			return true
		}
		for i := range g {
			if strings.HasPrefix(g[i], "ok ") && g[i] != b[i] {
				return false
			}
		}
		return true
	}
	return !strings.HasPrefix(got, "ok ")
}

func ioEngine(r *report, prop, tier string, seed int) {
	nScenes, nPairs := 240, 600
	if tier == "thorough" {
		nScenes, nPairs = 900, 12000
	}
	mustViolate("IO", "SPECIFICATION Spec\nCONSTANT K = 3\nCONSTANT Faults = 1\nCONSTANT Swallow = TRUE\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n", "Holds", seed)
	corpus, good, _ := r.allBases(seed)
	ms := mutants(nScenes, int64(seed)*59, corpus, good, `.`)
	scenes := make([]*ioScene, nScenes)
	parallel(nScenes, func(i int) {
		rng := rand.New(rand.NewSource(int64(seed)*7001 + int64(i)))
		s := &ioScene{Call: []string{"verify", "verify", "verify", "block", "extract"}[rng.Intn(5)], At: rng.Intn(2) == 0, Handle: rng.Intn(4) == 0}
		s.Rg = hRanges[rng.Intn(len(hRanges))]
		if i%3 == 2 {
			s.data = build(ms[i]).data
		} else {
			s.data = build(cloneApk(good[rng.Intn(len(good))])).data
		}
		s.prepare()
		scenes[i] = s
	})
	maxOps := 0
	for _, s := range scenes {
		if s.ops > maxOps {
			maxOps = s.ops
		}
	}
	if maxOps > 1500 {
		maxOps = 1500
	}
	plans := func(k, faults int, sim string) [][]ioFault {
		seen := map[string]bool{}
		var out [][]ioFault
		var extra []string
		if sim != "" {
			extra = strings.Fields(sim)
		}
		st := runTLC("IO", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT K = %d\nCONSTANT Faults = %d\nCONSTANT Swallow = FALSE\nINVARIANT Holds\nINVARIANT Short\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", k, faults), seed, extra, nil, func(s string) {
			if seen[s] {
				return
			}
			seen[s] = true
			var p []ioFault
			if err := json.Unmarshal([]byte(s), &p); err != nil {
				fatal("plan: %v: %.200s", err, s)
			}
			out = append(out, p)
		})
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
		sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
		return out
	}
	one := plans(maxOps, 1, "")
	two := plans(12, 2, "")
	type job struct {
		s    *ioScene
		plan []ioFault
	}
	var jobs []job
	rng := rand.New(rand.NewSource(int64(seed)))
	for _, s := range scenes {
		for _, p := range one {
			if p[0].K <= s.ops {
				jobs = append(jobs, job{s, p})
			}
		}
		for i := 0; i < nPairs/6 && s.ops > 1; i++ { // two failures, stretched over the call's operations
			p := append([]ioFault(nil), two[rng.Intn(len(two))]...)
			for j := range p {
				p[j].K = (p[j].K*s.ops + rng.Intn(s.ops)) / 12
			}
			jobs = append(jobs, job{s, p})
		}
		jobs = append(jobs, job{s, []ioFault{{1, "short", "on"}}})
	}
	var mu sync.Mutex
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		d, fired, changed := j.s.try(j.plan)
		mu.Lock()
		defer mu.Unlock()
		r.calls++
		if fired {
			r.nontrivial++
		}
		if changed {
			r.notes["answered_with_an_error"]++
		}
		if d != "" {
			r.notes["bad"]++
			if r.notes["bad"] <= 50 {
				j.s.File = base64.StdEncoding.EncodeToString(j.s.data)
				r.add(violation{Prop: prop, Engine: "io", What: d, Extra: map[string]interface{}{"scene": *j.s, "plan": j.plan}})
			}
		} else if i%(len(jobs)/6+1) == 0 {
			r.sample(map[string]interface{}{"call": j.s.Call, "range": j.s.Rg, "plan": j.plan, "operations": j.s.ops})
		}
	})
	r.note("scenes", len(scenes))
	r.note("max_operations", maxOps)
	r.rule = "every operation (read, seek, read at) of every scene's call, in turn, with every kind of failure, once and from then on; and pairs of failures; nontrivial: the planned failure was reached"
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println(r.notes)
	}
}

func init() {
	engines["C23"] = ioEngine
	levels["C23"] = "fault_enumeration"
	replayers["io"] = func(v violation) string {
		var x struct {
			Scene ioScene   `json:"scene"`
			Plan  []ioFault `json:"plan"`
		}
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &x); err != nil {
			fatal("%v", err)
		}
		x.Scene.prepare()
		d, _, _ := x.Scene.try(x.Plan)
		return d
	}
}

package main

// C22: calls at the same time (spec/Conc.tla).

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type cSeg struct {
	P int `json:"p"`
	N int `json:"n"`
}

// gate lets the calls of some processes make their operations one by one.
type gate struct {
	mu     sync.Mutex
	cond   *sync.Cond
	credit []int
	wait   []bool // about to make an operation, without credit
	done   []bool
}

func newGate(n int) *gate {
	g := &gate{credit: make([]int, n), wait: make([]bool, n), done: make([]bool, n)}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) op(p int) {
	g.mu.Lock()
	for g.credit[p] == 0 {
		g.wait[p] = true
		g.cond.Broadcast()
		g.cond.Wait()
	}
	g.wait[p] = false
	g.credit[p]--
	g.mu.Unlock()
}

func (g *gate) end(p int) {
	g.mu.Lock()
	g.done[p] = true
	g.cond.Broadcast()
	g.mu.Unlock()
}

// run lets p make n operations, and go on until it wants to make the next one.
func (g *gate) run(p, n int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.credit[p] += n
	g.wait[p] = false
	g.cond.Broadcast()
	for !g.done[p] && !(g.wait[p] && g.credit[p] == 0) {
		g.cond.Wait()
	}
}

type gatedReader struct {
	rd io.ReadSeeker
	op func()
}

func (r *gatedReader) Read(p []byte) (int, error) { r.op(); return r.rd.Read(p) }
func (r *gatedReader) Seek(o int64, w int) (int64, error) {
	r.op()
	return r.rd.Seek(o, w)
}

type gatedReaderAt struct {
	gatedReader
	at io.ReaderAt
}

func (r *gatedReaderAt) ReadAt(p []byte, o int64) (int, error) { r.op(); return r.at.ReadAt(p, o) }

func newGated(data []byte, at bool, op func()) io.ReadSeeker {
	rd := bytes.NewReader(data)
	g := gatedReader{rd, op}
	if at {
		return &gatedReaderAt{g, rd}
	}
	return &g
}

// cCall: one call of a scene.
type cCall struct {
	File string `json:"file"`
	Call string `json:"call"`
	Rg   hRange `json:"range"`
	At   bool   `json:"readerAt"`
	data []byte
	base string
	ops  int
}

func (c *cCall) prepare() {
	if c.data == nil {
		c.data, _ = base64.StdEncoding.DecodeString(c.File)
	}
	c.base = oneshot(c.data, c.Call, c.Rg, "bytes-start")
	c.solo(newGated(c.data, c.At, func() { c.ops++ }))
}

func (c *cCall) solo(rd io.ReadSeeker) (out string) {
	g := guard(callLimit, func() { out = say(c.Call, "", rd, nil, c.Rg, false) })
	if g.panicked != "" {
		return "panic " + g.panicked
	} else if g.hang {
		return "hang"
	}
	return out
}

// schedule runs the calls together, one at a time, as the specification's schedule says.
func schedule(calls []*cCall, sched []cSeg, k int) string {
	g := newGate(len(calls))
	out := make([]string, len(calls))
	var wg sync.WaitGroup
	for p := range calls {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			defer g.end(p)
			g.op(p)
			out[p] = calls[p].solo(newGated(calls[p].data, calls[p].At, func() { g.op(p) }))
		}(p)
	}
	at := make([]int, len(calls)) // steps made
	for _, s := range sched {
		p := s.P - 1
		ops := calls[p].ops + 1
		from, to := at[p]*ops/k, (at[p]+s.N)*ops/k
		at[p] += s.N
		n := to - from
		if at[p] == k {
			n += 1 << 30 // to its end
		}
		g.run(p, n)
	}
	wg.Wait()
	for p, c := range calls {
		if out[p] != c.base {
			return fmt.Sprintf("%s (range %v), process %d of %v, says %.600s\nalone it says %.600s", c.Call, c.Rg, p+1, sched, out[p], c.base)
		}
	}
	return ""
}

// free runs the calls on n processes without any order.
func free(calls []*cCall, n, rounds int, seed int64) string {
	var mu sync.Mutex
	bad := ""
	var wg sync.WaitGroup
	start := make(chan bool)
	for p := 0; p < n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed + int64(p)))
			<-start
			for k := 0; k < rounds; k++ {
				c := calls[rng.Intn(len(calls))]
				got := c.solo(newGated(c.data, rng.Intn(2) == 0, func() {
					if rng.Intn(4) == 0 {
						runtime.Gosched()
					}
				}))
				if got != c.base {
					mu.Lock()
					bad = fmt.Sprintf("%s (range %v), with %d others running, says %.600s\nalone it says %.600s", c.Call, c.Rg, n-1, got, c.base)
					mu.Unlock()
				}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	return bad
}

func raceLog() string { return filepath.Join(scratch(), "race") }

// underRaceDetector starts this program again with its reports going to a file.
func underRaceDetector() {
	if os.Getenv("VERIF_RACELOG") != "" {
		return
	}
	dir, err := os.MkdirTemp("", "verif-race")
	must(err)
	self, err := os.Executable()
	must(err)
	os.Setenv("VERIF_RACELOG", dir)
	os.Setenv("GORACE", "log_path="+filepath.Join(dir, "race")+" exitcode=0 halt_on_error=0")
	must(syscall.Exec(self, os.Args, os.Environ()))
}

// races says which data races between accesses of the library were seen.
func races() []string {
	dir := os.Getenv("VERIF_RACELOG")
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var out []string
	for _, f := range fs {
		d, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(d), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			acc := rep // the accesses: up to where the goroutines were created
			if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
				acc = rep[:i]
			}
			if strings.Contains(acc, "github.com/avast/") {
				out = append(out, strings.TrimSpace(rep))
			}
		}
	}
	os.RemoveAll(dir)
	return out
}

func concEngine(r *report, prop, tier string, seed int) {
	underRaceDetector()
	scratch()
	type plan struct{ n, k, pre, scenes int }
	plans := []plan{{2, 20, 2, 10}}
	nFree, rounds := 6, 40
	if tier == "thorough" {
		plans = []plan{{2, 60, 2, 24}, {3, 9, 2, 12}, {2, 12, 3, 16}}
		nFree, rounds = 60, 120
	}
	mustViolate("Conc", "SPECIFICATION Spec\nCONSTANT N = 2\nCONSTANT K = 4\nCONSTANT Preempt = 2\nCONSTANT Shared = TRUE\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n", "Holds", seed)
	corpus, good, _ := r.allBases(seed)
	t0 := time.Now()
	bad := 0
	for pi, pl := range plans {
		var scheds [][]cSeg
		st := runTLC("Conc", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT K = %d\nCONSTANT Preempt = %d\nCONSTANT Shared = FALSE\nINVARIANT Holds\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", pl.n, pl.k, pl.pre), seed, nil, nil, func(s string) {
			var h []cSeg
			if err := json.Unmarshal([]byte(s), &h); err != nil {
				fatal("schedule: %v: %.200s", err, s)
			}
			scheds = append(scheds, h)
		})
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
		sort.Slice(scheds, func(i, j int) bool { return fmt.Sprint(scheds[i]) < fmt.Sprint(scheds[j]) })
		ms := mutants(pl.scenes*pl.n, int64(seed)*131+int64(pi), corpus, good, `.`)
		scenes := make([][]*cCall, pl.scenes)
		parallel(pl.scenes, func(i int) {
			rng := rand.New(rand.NewSource(int64(seed)*31 + int64(i)))
			for p := 0; p < pl.n; p++ {
				c := &cCall{Call: []string{"verify", "verify", "verify", "extract", "block", "pick"}[rng.Intn(6)], Rg: hRanges[rng.Intn(len(hRanges))], At: rng.Intn(2) == 0}
				switch (i + p) % 4 {
				case 3:
					c.data = build(ms[i*pl.n+p]).data
				default:
					c.data = build(cloneApk(good[rng.Intn(len(good))])).data
				}
				if p > 0 && i%5 == 4 { // the same file
					c.data = scenes[i][0].data
				}
				c.prepare()
				scenes[i] = append(scenes[i], c)
			}
		})
		var mu sync.Mutex
		n := len(scheds) * pl.scenes
		parallel(n, func(i int) {
			sc := scenes[i%pl.scenes]
			s := scheds[i/pl.scenes]
			d := schedule(sc, s, pl.k)
			mu.Lock()
			defer mu.Unlock()
			r.calls += pl.n
			r.notes["schedules"]++
			if d != "" && bad < 20 {
				bad++
				r.add(concViolation(prop, "schedule", d, sc, s, pl.k))
			} else if i%(n/3+1) == 0 {
				r.sample(s)
			}
		})
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println("gated", time.Since(t0))
	}

	// without order, under the race detector
	for k := 0; k < nFree; k++ {
		ms := mutants(8, int64(seed)*977+int64(k), corpus, good, `.`)
		calls := make([]*cCall, 24)
		parallel(len(calls), func(i int) {
			rng := rand.New(rand.NewSource(int64(seed)*317 + int64(k*100+i)))
			c := &cCall{Call: []string{"verify", "verify", "verify", "extract", "block", "pick"}[i%6], Rg: hRanges[rng.Intn(len(hRanges))]}
			if i < 8 {
				c.data = build(ms[i]).data
			} else {
				c.data = build(cloneApk(good[rng.Intn(len(good))])).data
			}
			c.prepare()
			calls[i] = c
		})
		for _, procs := range []int{2, 8, 32} {
			if d := free(calls, procs, rounds*8/procs+1, int64(seed)+int64(k)); d != "" {
				r.add(concViolation(prop, "free", d, calls, nil, 0))
			}
			r.calls += procs * (rounds*8/procs + 1)
			r.notes["free_calls"] += procs * (rounds*8/procs + 1)
		}
	}
	seen := map[string]bool{}
	for _, x := range races() {
		if f := raceAt(x); !seen[f] {
			seen[f] = true
			r.viol = append(r.viol, violation{Prop: prop, Engine: "race", What: "data race at " + f + "\n" + x, Extra: map[string]interface{}{"report": x}})
		}
	}
	if !raceEnabled {
		r.note("without_race_detector", 1)
	}
}

// raceAt: the first place in the library in a report.
func raceAt(x string) string {
	for _, l := range strings.Split(x, "\n") {
		if l = strings.TrimSpace(l); strings.HasPrefix(l, "github.com/avast/") {
			return l
		}
	}
	return "?"
}

func concViolation(prop, engine, d string, calls []*cCall, s []cSeg, k int) violation {
	for _, c := range calls {
		c.File = base64.StdEncoding.EncodeToString(c.data)
	}
	return violation{Prop: prop, Engine: engine, What: d, Extra: map[string]interface{}{"calls": calls, "schedule": s, "k": k}}
}

func init() {
	engines["C22"] = concEngine
	rep := func(v violation) string {
		var x struct {
			Calls    []*cCall `json:"calls"`
			Schedule []cSeg   `json:"schedule"`
			K        int      `json:"k"`
		}
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &x); err != nil {
			fatal("%v", err)
		}
		for _, c := range x.Calls {
			c.prepare()
		}
		if x.Schedule != nil {
			return schedule(x.Calls, x.Schedule, x.K)
		}
		for k := 0; k < 50; k++ {
			if d := free(x.Calls, 16, 40, int64(k)); d != "" {
				return d
			}
		}
		return ""
	}
	replayers["schedule"] = rep
	replayers["free"] = rep
	replayers["race"] = func(v violation) string { return v.What }
}

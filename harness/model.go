package main

// Running TLC on the specification and replaying what it explored on the real code.

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const tlaJars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// scratchDir is removed when the process ends.
var scratchDir string

func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "verif-")
		if err != nil {
			fatal("scratch: %v", err)
		}
		scratchDir = d
	}
	return scratchDir
}

func cleanup() {
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

// frostKeys: how many of our keys the build under test trusts for frosting (set at link time).
var frostKeyCount = "0"
var frostKeys = func() int { n, _ := strconv.Atoi(frostKeyCount); return n }()

type tlcStats struct {
	Generated, Distinct int
	Depth               int
	Violated            string // name of a violated invariant of the specification itself
	Out                 []string
}

var (
	reStates = regexp.MustCompile(`^(\d+) states generated, (\d+) distinct states found`)
	reDepth  = regexp.MustCompile(`depth of the complete state graph search is (\d+)`)
	reInv    = regexp.MustCompile(`^Error: (Invariant (\S+) is violated|.*)`)
)

// runTLC runs module with the given configuration text; every line printed with PrintT goes to emit.
func runTLC(module, cfg string, seed int, extra []string, env []string, emit func(string)) tlcStats {
	st, err := execTLC(module, cfg, seed, extra, env, emit)
	if st.Violated != "" || err != nil {
		for i, l := range st.Out {
			if i > len(st.Out)-60 {
				fmt.Fprintln(os.Stderr, l)
			}
		}
		fatal("TLC on %s: %s (%v)", module, st.Violated, err)
	}
	return st
}

// mustViolate: a specification broken on purpose, whose invariant has to fail.
func mustViolate(module, cfg, inv string, seed int) {
	st, _ := execTLC(module, cfg, seed, nil, nil, func(string) {})
	if !strings.Contains(st.Violated, "Invariant "+inv+" is violated") {
		fatal("%s, broken on purpose, does not violate %s: %s", module, inv, strings.Join(st.Out, "\n"))
	}
}

func execTLC(module, cfg string, seed int, extra []string, env []string, emit func(string)) (tlcStats, error) {
	dir, err := os.MkdirTemp(scratch(), "tlc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	cfgFile := filepath.Join(dir, "M.cfg")
	if err := os.WriteFile(cfgFile, []byte(cfg), 0644); err != nil {
		fatal("%v", err)
	}
	args := []string{"-Xmx8g", "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + dir, "-cp", tlaJars, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-workers", strconv.Itoa(runtime.NumCPU()),
		"-seed", strconv.Itoa(seed), "-fp", "1", "-metadir", filepath.Join(dir, "meta"), "-config", cfgFile}
	args = append(args, extra...)
	args = append(args, module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = filepath.Join(verifDir, "spec")
	cmd.Env = append(os.Environ(), env...)
	cmd.Stderr = os.Stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("TLC: %v", err)
	}
	var st tlcStats
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if line = strings.TrimRight(line, "\n"); line != "" {
			switch {
			case strings.HasPrefix(line, `"@@`):
				var s string
				if err := json.Unmarshal([]byte(line), &s); err != nil {
					fatal("TLC output: %v in %.200s", err, line)
				}
				emit(s[2:])
			default:
				if m := reStates.FindStringSubmatch(line); m != nil {
					st.Generated, _ = strconv.Atoi(m[1])
					st.Distinct, _ = strconv.Atoi(m[2])
				} else if m := reDepth.FindStringSubmatch(line); m != nil {
					st.Depth, _ = strconv.Atoi(m[1])
				} else if m := reInv.FindStringSubmatch(line); m != nil && st.Violated == "" {
					st.Violated = m[1]
				}
				st.Out = append(st.Out, line)
			}
		}
		if err != nil {
			break
		}
	}
	return st, cmd.Wait()
}

// --- one expectation produced by TLC ---

type expect struct {
	Apk  json.RawMessage `json:"apk"`
	Call string          `json:"call"`
	Min  int             `json:"min"`
	Max  int             `json:"max"`
	Keep []string        `json:"keep"`
	Out  O               `json:"out"`
}

func (o *O) norm() {
	sort.Strings(o.Extra)
}

func nilEq(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y) || reflect.DeepEqual(a, b)
}

func diffO(keep []string, want, got O) string {
	want.norm()
	got.norm()
	var d []string
	for _, k := range keep {
		var a, b interface{}
		switch k {
		case "res":
			a, b = want.Res, got.Res
		case "scheme":
			a, b = want.Scheme, got.Scheme
		case "certs":
			a, b = want.Certs, got.Certs
		case "lin":
			a, b = want.Lin, got.Lin
		case "extra":
			a, b = want.Extra, got.Extra
		case "v3certs":
			a, b = want.V3Certs, got.V3Certs
		case "v3lin":
			a, b = want.V3Lin, got.V3Lin
		case "stamp":
			a, b = want.Stamp, got.Stamp
		case "frost":
			a, b = want.Frost, got.Frost
		default:
			fatal("unknown observation field %q", k)
		}
		if !nilEq(a, b) {
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			d = append(d, fmt.Sprintf("%s: specified %s, got %s", k, x, y))
		}
	}
	return strings.Join(d, "; ")
}

type violation struct {
	Prop   string          `json:"property"`
	Engine string          `json:"engine"`
	What   string          `json:"what"`
	Apk    json.RawMessage `json:"apk,omitempty"`
	Call   string          `json:"call,omitempty"`
	Min    int             `json:"min"`
	Max    int             `json:"max"`
	Keep   []string        `json:"keep,omitempty"`
	Want   *O              `json:"specified,omitempty"`
	Got    *O              `json:"observed,omitempty"`
	Extra  interface{}     `json:"extra,omitempty"`
	Key    string          `json:"key,omitempty"` // identifies the defect, where that can be said
}

func (v violation) id() string {
	if v.Key != "" {
		return v.Key
	}
	h := sha256.Sum256([]byte(v.Prop + v.Engine + string(v.Apk) + v.Call + fmt.Sprint(v.Min, v.Max, v.Extra)))
	return hex.EncodeToString(h[:6])
}

// parallel runs f(i) for i in [0,n) on all cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

type report struct {
	mu      sync.Mutex
	viol    []violation
	calls   int
	spec    tlcStats
	samples []interface{}
	notes   map[string]int

	nontrivial int
	rule       string
}

func newReport() *report { return &report{notes: map[string]int{}} }

func (r *report) add(v violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, v)
}

func (r *report) note(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.notes[k] += n
}

func (r *report) sample(s interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, s)
	}
}

// replayModel explores the property's model instance and replays every completed call of it.
func (r *report) replayModel(prop string, depth, sample, seed int) (corpus, good []json.RawMessage, calls []callSpec) {
	cfg := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Prop = %q\nCONSTANT Depth = %d\nCONSTANT Sample = %d\nCONSTANT FrostKeyCount = %d\nINVARIANT TypeOK\nINVARIANT Holds\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", prop, depth, sample, frostKeys)
	groups := map[string][]expect{}
	var order []string
	st := runTLC("MC", cfg, seed, nil, nil, func(s string) {
		var e expect
		if err := json.Unmarshal([]byte(s), &e); err != nil {
			fatal("TLC case: %v: %.300s", err, s)
		}
		k := string(e.Apk)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], e)
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Strings(order)
	parallel(len(order), func(i int) {
		es := groups[order[i]]
		var a Apk
		if err := json.Unmarshal([]byte(order[i]), &a); err != nil {
			fatal("APK of the model: %v: %.300s", err, order[i])
		}
		b := build(&a)
		for _, e := range es {
			got := observe(b, e.Call, e.Min, e.Max)
			if d := diffO(e.Keep, e.Out, got); d != "" && prop == "all" {
				r.note("differs_from_the_specification_elsewhere", 1) // the other properties' checks report it
			} else if d != "" {
				want := e.Out
				r.add(violation{Prop: prop, Engine: "model", What: d, Apk: e.Apk, Call: e.Call, Min: e.Min, Max: e.Max, Keep: e.Keep, Want: &want, Got: &got})
			} else if i%(len(order)/4+1) == 0 {
				r.sample(map[string]interface{}{"call": e.Call, "min": e.Min, "max": e.Max, "specified": e.Out.Res, "apk": e.Apk})
			}
			r.note("model_"+got.Res, 1)
		}
		r.mu.Lock()
		r.calls += len(es)
		r.mu.Unlock()
	})
	for _, k := range order {
		corpus = append(corpus, json.RawMessage(k))
	}
	seen := map[callSpec]bool{}
	for _, k := range order {
		for _, e := range groups[k] {
			if e.Out.Res == "acc" {
				good = append(good, json.RawMessage(k))
				break
			}
		}
		for _, e := range groups[k] {
			if c := (callSpec{e.Call, e.Min, e.Max}); !seen[c] {
				seen[c] = true
				calls = append(calls, c)
			}
		}
	}
	sort.Slice(calls, func(i, j int) bool { return fmt.Sprint(calls[i]) < fmt.Sprint(calls[j]) })
	return corpus, good, calls
}

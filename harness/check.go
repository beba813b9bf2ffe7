package main

// One check: explore the specification, replay on the implementation, record from the implementation,
// report.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type tierCfg struct {
	depth, sample int // edits explored exhaustively / sampled per further level
	random        int // recorded random calls
}

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

var conformance = map[string]bool{}

func init() {
	for p := range facets {
		conformance[p] = true
	}
}

// known findings: lines "known: property=<id> id=<violation id> <what fails>"; "fixed:" lines are history.
func knownFindings() map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		m[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return m
}

type engine func(r *report, prop, tier string, seed int)

// engines of the properties not decided by the verifier model alone
var engines = map[string]engine{}
var levels = map[string]string{}
var assumptions = map[string][]string{}

func conformanceEngine(r *report, prop, tier string, seed int) {
	t := tierCfg{1, 0, 4000}
	if tier == "thorough" {
		t = tierCfg{2, 12, 40000}
	}
	corpus, good, calls := r.replayModel(prop, t.depth, t.sample, seed)
	for n := 0; n < t.random; n += 10000 {
		k := t.random - n
		if k > 10000 {
			k = 10000
		}
		r.randomTraces(prop, k, seed*7919+n, corpus, good, calls)
	}
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := seedEnv()
	r := newReport()
	done := false
	if conformance[prop] {
		conformanceEngine(r, prop, tier, seed)
		done = true
	}
	if e := engines[prop]; e != nil {
		e(r, prop, tier, seed)
		done = true
	}
	if !done {
		fatal("no check for %s", prop)
	}

	known := knownFindings()
	sort.Slice(r.viol, func(i, j int) bool { return len(r.viol[i].Apk) < len(r.viol[j].Apk) })
	dir := filepath.Join(verifDir, "replay")
	if d := os.Getenv("VERIF_REPLAY"); d != "" {
		dir = d
	}
	bad := 0
	told := map[string]bool{}
	for _, v := range r.viol {
		if what, ok := known[v.Prop+"/"+v.id()]; ok {
			if !told[v.id()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, what)
			}
			told[v.id()] = true
			continue
		}
		if bad++; bad <= 5 || os.Getenv("VERIF_VERBOSE") != "" {
			os.MkdirAll(dir, 0755)
			f := filepath.Join(dir, fmt.Sprintf("%s-%s.json", v.Prop, v.id()))
			j, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(f, j, 0644); err != nil {
				fatal("%v", err)
			}
			fmt.Printf("%s (%s): %s\n", v.Prop, v.Engine, firstLine(v.What))
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, f)
		}
	}
	if bad > 5 {
		fmt.Printf("... and %d more\n", bad-5)
	}

	level := levels[prop]
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]interface{}{"states": r.spec.Distinct, "transitions": r.spec.Generated, "samples": r.samples}
	if level != "fault_enumeration" && level != "exploration" {
		cov["traces_validated_against_impl"] = r.calls
	}
	if level == "fault_enumeration" || level == "exploration" {
		cov["evaluations"] = r.calls
		cov["distinct_nontrivial"] = r.nontrivial
		cov["rule"] = r.rule
	}
	for k, v := range r.notes {
		cov["n_"+k] = v
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": bad,
		"assumptions": append([]string{"ideal cryptography: a signature verifies only if made by that key over that data", "the archive reader and manifest parser (avast/apkparser) as specified"}, assumptions[prop]...)}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(j, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d specification states, %d calls of the implementation compared, %d violations, %.1f s\n", prop, tier, r.spec.Distinct, r.calls, bad, time.Since(t0).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "genpki" {
		genPKI(os.Args[2])
		return
	}
	loadPKI()
	if len(os.Args) < 2 {
		fmt.Println("usage")
		os.Exit(2)
	}
	defer cleanup()
	switch os.Args[1] {
	case "spki":
		fmt.Println(b64(keys[os.Args[2]].spki))
	case "oneshot":
		oneshotMain()
	case "report":
		reportMain()
	case "worker":
		workerMain(os.Args[2])
	case "smoke":
		smoke()
	case "demos": // demos DIR: the APKs of the demonstrations of planted bugs
		writeDemos(os.Args[2])
	case "check": // check PROP TIER
		rc := check(os.Args[2], os.Args[3])
		cleanup()
		os.Exit(rc)
	case "replay":
		rc := replayFile(os.Args[2])
		cleanup()
		os.Exit(rc)
	case "frostprobe": // exit 0 if frosting by one of our keys is accepted
		if !frostProbe() {
			os.Exit(1)
		}
	case "model": // model PROP DEPTH SAMPLE
		r := newReport()
		d, _ := strconv.Atoi(os.Args[3])
		s, _ := strconv.Atoi(os.Args[4])
		t0 := time.Now()
		corpus, good, calls := r.replayModel(os.Args[2], d, s, 1)
		if n, _ := strconv.Atoi(os.Getenv("RANDOM")); n > 0 {
			sd, _ := strconv.Atoi(os.Getenv("SEED"))
			r.randomTraces(os.Args[2], n, sd, corpus, good, calls)
		}
		fmt.Println(r.calls, "calls", r.spec.Distinct, "states", len(r.viol), "violations", r.notes, time.Since(t0))
		for i, v := range r.viol {
			if i < 6 || len(os.Args) > 5 {
				j, _ := json.Marshal(v)
				fmt.Println(string(j))
			}
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// replayers of engines other than the verifier model
var replayers = map[string]func(v violation) string{}

// replayFile runs the case of a replay file on the implementation again.
func replayFile(f string) int {
	j, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var v violation
	if err := json.Unmarshal(j, &v); err != nil {
		fatal("%v", err)
	}
	var d string
	if rp := replayers[v.Engine]; rp != nil {
		d = rp(v)
	} else {
		var a Apk
		if err := json.Unmarshal(v.Apk, &a); err != nil {
			fatal("%v", err)
		}
		got := observe(build(&a), v.Call, v.Min, v.Max)
		j, _ := json.MarshalIndent(got, "", " ")
		fmt.Println(string(j))
		d = diffO(v.Keep, *v.Want, got)
	}
	if d == "" {
		fmt.Println("as specified")
		return 0
	}
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", d, v.Prop, f)
	return 1
}

func frostProbe() bool {
	for k, name := range []string{"frost", "frost2"} {
		if k >= frostKeys {
			return false
		}
		a := validApk()
		a.Sb.Pairs = append(a.Sb.Pairs, Pair{ID: "frost", Fr: "ok", Signers: []Signer{}, Frost: &Frost{Fr: "ok", Entries: []FrostEntry{{Dis: 0, Key: k, Hash: "good", K: name, O: "this", F: "ok"}}}})
		if observe(build(a), "block", 24, 27).Frost == "ok" {
			return true
		}
	}
	return false
}

package main

import (
	"encoding/json"
	"fmt"
)

func smoke() {
	a := validApk()
	b := build(a)
	for _, r := range [][2]int{{-1, 2147483647}, {24, 27}, {28, 30}, {14, 23}} {
		for _, c := range []string{"verify", "block", "extract"} {
			j, _ := json.Marshal(observe(b, c, r[0], r[1]))
			fmt.Println(string(j))
		}
	}
}

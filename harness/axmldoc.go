package main

// C14, C15: what AndroidManifest.xml means (spec/Manifest.tla).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"unicode/utf16"

	"github.com/avast/apkverifier"
)

type mAttr struct {
	K string `json:"k"`
	T string `json:"t"`
	I int32  `json:"i"`
}

type mElem struct {
	N  string  `json:"n"`
	D  int     `json:"d"`
	At []mAttr `json:"at"`
}

type mCall struct {
	A   string `json:"a"`
	Lo  int32  `json:"lo"`
	Hi  int32  `json:"hi"`
	Acc bool   `json:"acc"`
}

type mCase struct {
	Doc   []mElem `json:"doc"`
	Calls []mCall `json:"calls"`
	Form  int     `json:"form"` // how the document is spelled
}

var mResID = map[string]uint32{"minSdkVersion": 0x0101020c, "targetSdkVersion": 0x01010270, "targetSandboxVersion": 0x0101054c, "maxSdkVersion": 0x01010271, "versionCode": 0x0101021b}

// axml: forms differ in namespaces, attributes named by resource only, the encoding of strings, and in
// chunks which say nothing
func (c mCase) axml() []byte {
	f := c.Form
	ns, byID, u8, noise := f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0
	const none = uint32(0xffffffff)
	var strs []string
	idx := map[string]uint32{}
	str := func(s string) uint32 {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = uint32(len(strs))
		strs = append(strs, s)
		return idx[s]
	}
	var ids []byte
	if byID {
		for i, k := range []string{"versionCode", "minSdkVersion", "targetSdkVersion", "maxSdkVersion", "targetSandboxVersion"} {
			idx[k] = uint32(i)
			strs = append(strs, "")
			ids = append(ids, le(mResID[k])...)
		}
		ids = append(le(uint16(0x0180), uint16(8), uint32(8+len(ids))), ids...)
	}
	chunk := func(id uint16, p []byte) []byte {
		return append(le(id, uint16(16), uint32(16+len(p)), uint32(1), none), p...)
	}
	var body []byte
	nsAt := none
	if ns {
		nsAt = str("http://schemas.android.com/apk/res/android")
		body = append(body, chunk(0x0100, le(str("android"), nsAt))...)
	}
	var open []string
	closeTo := func(d int) {
		for len(open) > d {
			body = append(body, chunk(0x0103, le(none, str(open[len(open)-1])))...)
			open = open[:len(open)-1]
		}
	}
	for i, e := range c.Doc {
		closeTo(e.D - 1)
		if noise && i%2 == 1 {
			body = append(body, chunk(0x0104, le(str("\n  "), uint32(0), uint32(0)))...)
			body = append(body, le(uint16(0x0204), uint16(8), uint32(12), uint32(7))...)
		}
		var at []byte
		for _, a := range e.At {
			n := str(a.K)
			sp := nsAt
			switch a.T {
			case "int":
				at = append(at, le(sp, n, none, uint16(8), uint8(0), uint8(0x10), a.I)...)
			case "hex":
				at = append(at, le(sp, n, none, uint16(8), uint8(0), uint8(0x11), a.I)...)
			case "ref":
				at = append(at, le(sp, n, none, uint16(8), uint8(0), uint8(1), uint32(0x7f050001))...)
			default:
				s := str(map[string]string{"code": "Tiramisu", "empty": ""}[a.T])
				at = append(at, le(sp, n, s, uint16(8), uint8(0), uint8(3), s)...)
			}
		}
		p := le(none, str(e.N), uint16(20), uint16(20), uint16(len(e.At)), uint16(0), uint16(0), uint16(0))
		body = append(body, chunk(0x0102, append(p, at...))...)
		open = append(open, e.N)
	}
	closeTo(0)
	if ns {
		body = append(body, chunk(0x0101, le(str("android"), nsAt))...)
	}
	var offs, data []byte
	for _, s := range strs {
		offs = append(offs, le(uint32(len(data)))...)
		if u8 {
			data = append(data, byte(len(s)), byte(len(s)))
			data = append(append(data, s...), 0)
			continue
		}
		u := utf16.Encode([]rune(s))
		data = append(data, le(uint16(len(u)))...)
		data = append(append(data, le(u)...), 0, 0)
	}
	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	fl := uint32(0)
	if u8 {
		fl = 0x100
	}
	st := le(uint16(1), uint16(28), uint32(28+len(offs)+len(data)), uint32(len(strs)), uint32(0), fl, uint32(28+len(offs)), uint32(0))
	st = append(append(append(st, offs...), data...), ids...)
	out := le(uint16(3), uint16(8), uint32(8+len(st)+len(body)))
	return append(append(out, st...), body...)
}

var mOnce sync.Once
var mArch map[string]func() *Apk

func (c mCase) run() string {
	mOnce.Do(func() {
		mArch = map[string]func() *Apk{}
		for _, a := range []string{"v1", "v2"} {
			a := a
			mArch[a] = func() *Apk {
				x := apkWith(nil, true)
				if a == "v2" {
					x = apkWith([]Pair{pr("v2", validSigner("rsa256", "rsaA", 0, 0))}, true)
				}
				x.V1 = validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml"}, "rsaA", "sha1", "rsa", "sha1")
				return x
			}
		}
	})
	data := map[string][]byte{}
	for _, call := range c.Calls {
		if data[call.A] == nil {
			data[call.A] = buildHooked(mArch[call.A](), func(part string, p []byte) []byte {
				if part == "axml" {
					return c.axml()
				}
				return p
			}).data
		}
		var err error
		var r apkverifier.Result
		g := guard(callLimit, func() {
			r, err = apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(data[call.A]), nil, call.Lo, call.Hi)
		})
		if g.panicked != "" || g.hang {
			return "panic or hang: " + firstLine(g.panicked)
		}
		if (err == nil) != call.Acc {
			return fmt.Sprintf("%s <%d;%d>: specified accepted=%v, got scheme %d, %v", call.A, call.Lo, call.Hi, call.Acc, r.SigningSchemeId, err)
		}
	}
	return ""
}

func manifestCfg(edits, sample int, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT MaxEdits = %d\nCONSTANT Sample = %d\nCONSTANT Mutant = %q\nINVARIANT Faithful\nINVARIANT Tree\nCHECK_DEADLOCK FALSE\n", edits, sample, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func manifestEngine(r *report, prop, tier string, seed int) {
	for _, m := range []string{"dec", "anydepth", "anyname", "notarget"} {
		mustViolate("Manifest", manifestCfg(1, 1, m, false), "Faithful", seed)
	}
	sample := 80
	if tier == "thorough" {
		sample = 3
	}
	var lines []string
	st := runTLC("Manifest", manifestCfg(2, sample, "none", true), seed, nil, nil, func(s string) { lines = append(lines, s) })
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	parallel(len(lines), func(i int) {
		var c mCase
		if err := json.Unmarshal([]byte(lines[i]), &c); err != nil {
			fatal("manifest: %v: %.200s", err, lines[i])
		}
		h := caseHash(lines[i], seed)
		c.Form = int(h % 16)
		// the range is C15's; what the sandbox and target versions do to a given range is C14's
		var cs []mCall
		for _, x := range c.Calls {
			if (x.Lo < 0 || x.Lo > x.Hi) == (prop == "C15") {
				cs = append(cs, x)
			}
		}
		c.Calls = cs
		if d := c.run(); d != "" {
			r.add(violation{Prop: prop, Engine: "manifest", What: d, Extra: c})
		} else if i == len(lines)/2 {
			r.sample(c)
		}
		r.note("manifest_documents", 1)
		r.mu.Lock()
		r.calls += len(c.Calls)
		r.mu.Unlock()
	})
}

func init() {
	engines["C14"], engines["C15"] = manifestEngine, manifestEngine
	replayers["manifest"] = func(v violation) string {
		var c mCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		return c.run()
	}
}

package main

// C29: the text of manifests and signature files (spec/Text.tla).

import (
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/avast/apkverifier"
)

type txSec struct {
	N    []string `json:"n"`
	From int      `json:"from"`
	To   int      `json:"to"`
}

type txCase struct {
	Which   string   `json:"which"`
	T       []string `json:"t"`
	Acc     bool     `json:"acc"`
	Err     bool     `json:"err"`
	MainEnd int      `json:"mainEnd"`
	Secs    []txSec  `json:"secs"`
	Form    int      `json:"form"`
	Twice   bool     `json:"twice"`
	Only    int      `json:"only"` // 1, 2: only this signature file for a manifest
}

var txFiles = map[string]string{"AM": "AndroidManifest.xml", "res/ x.txt": "res/x.txt", "classes .dex": "classes.dex", "C3 A9": "\u00e9"}

func txDigest(data []byte) string {
	h := sha256.Sum256(data)
	return base64.StdEncoding.EncodeToString(h[:])
}

var (
	txOnce     sync.Once
	txContents = map[string][]byte{} // by file name
	txFixed    = map[string]string{} // tokens with a meaning of their own
	txMf       []byte                // the manifest that goes with signature files
)

func txApk() *Apk {
	a := apkWith(nil, true)
	a.Files = append(a.Files, FileE{"\u00e9", "c", "deflate", false})
	a.V1 = validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml", "\u00e9"}, "ecA", "sha256", "ec", "sha256")
	return a
}

func txInit() {
	b := build(txApk())
	z, err := zip.NewReader(bytes.NewReader(b.data), int64(len(b.data)))
	must(err)
	for _, f := range z.File {
		rd, err := f.Open()
		must(err)
		txContents[f.Name], err = io.ReadAll(rd)
		must(err)
	}
	half := func(name string, data []byte) {
		d := txDigest(data)
		txFixed[name+"1"], txFixed[name+"2"] = d[:20], d[20:]
	}
	short := map[string]string{"AM": "a", "res/ x.txt": "r", "classes .dex": "c", "C3 A9": "u"}
	for _, f := range sortedKeys(txFiles) {
		half(short[f], txContents[txFiles[f]])
	}
	main := "Manifest-Version: 1.0\r\n\r\n"
	txMf = []byte(main)
	half("m", txMf)
	for _, f := range sortedKeys(txFiles) {
		n := len(txMf)
		txMf = append(txMf, "Name: "+txFiles[f]+"\r\nSHA-256-Digest: "+txDigest(txContents[txFiles[f]])+"\r\n\r\n"...)
		half("k"+short[f], txMf[n:])
	}
	half("w", txMf)
	for k, v := range map[string]string{"_": " ", "CR": "\r", "LF": "\n", "NUL": "\x00", "TAB": "\t", "D": "SHA-256-Digest", "d": "sha-256-digest", "S": "SHA-512-Digest", "s": "sha-512-digest",
		"MV": "Manifest-Version", "CB": "Created-By", "SV": "Signature-Version", "W": "SHA-256-Digest-Manifest", "MM": "SHA-256-Digest-Manifest-Main-Attributes", "XA": "X-Android-APK-Signed",
		"mv": "manifest-version", "cb": "created-by", "sv": "signature-version", "w": "sha-256-digest-manifest", "mm": "sha-256-digest-manifest-main-attributes", "xa": "x-android-apk-signed",
		"NAME": "NAME", "L35": strings.Repeat("L", 35), "AM": "AndroidManifest.xml", "C3": "\xc3", "A9": "\xa9", "st": "signtool"} {
		txFixed[k] = v
	}
}

func txTok(t string) string {
	if s, ok := txFixed[t]; ok {
		return s
	}
	return t
}

func txJoin(t []string) string {
	var b strings.Builder
	for _, x := range t {
		b.WriteString(txTok(x))
	}
	return b.String()
}

// sf: a signature file for the manifest of the case, naming the parts the specification sees in it
func (c txCase) sf(chunks bool, mf []byte) []byte {
	var w bytes.Buffer
	fmt.Fprintf(&w, "Signature-Version: 1.0\r\n")
	if chunks {
		fmt.Fprintf(&w, "SHA-256-Digest-Manifest-Main-Attributes: %s\r\n\r\n", txDigest([]byte(txJoin(c.T[:c.MainEnd]))))
	} else {
		fmt.Fprintf(&w, "SHA-256-Digest-Manifest: %s\r\n\r\n", txDigest(mf))
	}
	for _, f := range sortedKeys(txFiles) {
		d := "none"
		for _, s := range c.Secs {
			if strings.Join(s.N, " ") == f {
				d = txDigest([]byte(txJoin(c.T[s.From-1 : s.To])))
			}
		}
		fmt.Fprintf(&w, "Name: %s\r\nSHA-256-Digest: %s\r\n\r\n", txFiles[f], d)
	}
	return w.Bytes()
}

func (c txCase) run() string {
	txOnce.Do(txInit)
	text := []byte(txJoin(c.T))
	for variant := 0; variant < 2; variant++ {
		if c.Which != "mf" && variant == 1 || c.Only != 0 && variant != c.Only-1 && c.Which == "mf" {
			continue
		}
		b := buildHooked(txApk(), func(part string, p []byte) []byte {
			switch part {
			case "mf":
				if c.Which == "mf" {
					return text
				}
				return txMf
			case "sf":
				if c.Which == "mf" {
					return c.sf(variant == 1, text)
				}
				return text
			}
			return p
		})
		rg := [][2]int32{{21, 30}, {18, maxInt}, {24, 27}, {24, 24}}[c.Form%4]
		var err error
		g := guard(callLimit, func() {
			var r apkverifier.Result
			r, err = apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(b.data), nil, rg[0], rg[1])
			if err == nil && len(r.SignerCerts) != 1 {
				err = fmt.Errorf("%d chains", len(r.SignerCerts))
			}
		})
		if g.panicked != "" || g.hang {
			return "panic or hang: " + firstLine(g.panicked)
		}
		if (err == nil) != c.Acc {
			return fmt.Sprintf("variant %d: specified accepted=%v, got: %v; text %q", variant, c.Acc, err, text)
		}
	}
	return ""
}

func txCfg(mode, which string, edits, sample int, first, then []string, mutant string, emit bool) string {
	set := func(s []string) string { return "{\"" + strings.Join(s, "\",\"") + "\"}" }
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Mode = %q\nCONSTANT Which = %q\nCONSTANT MaxEdits = %d\nCONSTANT Eols = {\"crlf\",\"cr\",\"lf\"}\nCONSTANT First = %s\nCONSTANT Then = %s\nCONSTANT Sample = %d\nCONSTANT Mutant = %q\nINVARIANT Spelled\nINVARIANT Covers\nCHECK_DEADLOCK FALSE\n",
		mode, which, edits, set(first), set(then), sample, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func textEngine(r *report, prop, tier string, seed int) {
	first := []string{":", "_", "CR", "LF", "NUL", "TAB", "Name", "name", "D", "S", "x", "!", "L35", "classes", ",", "2", "st"}
	then := []string{":", "_", "CR", "LF", "L35"}
	for _, m := range []string{"case", "wrap", "nocr"} {
		mustViolate("Text", txCfg("spell", "mf", 1, 1, first, then, m, false), "Spelled", seed)
	}
	type plan struct {
		mode          string
		edits, sample int
	}
	plans := []plan{{"spell", 1, 1}, {"edit", 1, 1}, {"edit", 2, 20}}
	if tier == "thorough" {
		plans = []plan{{"spell", 2, 2}, {"edit", 1, 1}, {"edit", 2, 3}}
	}
	for _, pl := range plans {
		for _, which := range []string{"mf", "sf", "sfc"} {
			var lines []string
			f := first
			if pl.edits > 1 && tier != "thorough" {
				f = append(append([]string{}, then...), "x")
			}
			st := runTLC("Text", txCfg(pl.mode, which, pl.edits, pl.sample, f, then, "none", true), seed, nil, nil, func(s string) { lines = append(lines, s) })
			r.spec.Generated += st.Generated
			r.spec.Distinct += st.Distinct
			parallel(len(lines), func(i int) {
				var c txCase
				if err := json.Unmarshal([]byte(lines[i]), &c); err != nil {
					fatal("text: %v: %.200s", err, lines[i])
				}
				if c.Twice && pl.edits > 1 || tier != "thorough" && pl.mode == "edit" && !c.Twice && caseHash(lines[i], seed+1)%2 == 0 {
					return
				}
				if c.Twice {
					r.note("text_repeated", 1)
				}
				if tier != "thorough" {
					c.Only = 1 + int(caseHash(lines[i], seed+2)%2)
				}
				c.Form = int(caseHash(lines[i], seed) % 4)
				if d := c.run(); d != "" {
					r.add(violation{Prop: prop, Engine: "text", What: d, Extra: c})
				} else if i == len(lines)/2 {
					r.sample(c)
				}
				what := "text_rejected"
				if c.Acc {
					what = "text_accepted"
				} else if c.Err {
					what = "text_malformed"
				}
				r.note(what, 1)
				r.mu.Lock()
				r.calls++
				r.mu.Unlock()
			})
		}
	}
}

func init() {
	engines["C29"] = textEngine
	replayers["text"] = func(v violation) string {
		var c txCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		return c.run()
	}
}

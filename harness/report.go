package main

// C31: texts about what was found, and comparing lineages (spec/Report.tla).

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/apilevel"
	"github.com/avast/apkverifier/signingblock"
)

type rpToken struct {
	Name string `json:"name"`
	Bit  int    `json:"bit"`
}

type rpNode struct {
	C  string `json:"c"`
	Pa int32  `json:"pa"`
	Na int32  `json:"na"`
	S  string `json:"s"`
	F  int32  `json:"f"`
}

type rpCase struct {
	Mode  string    `json:"mode"`
	Bits  []int     `json:"bits,omitempty"`
	Text  []rpToken `json:"text,omitempty"`
	L1    []rpNode  `json:"l1,omitempty"`
	L2    []rpNode  `json:"l2,omitempty"`
	Eq    bool      `json:"eq,omitempty"`
	Kind  string    `json:"kind,omitempty"`
	V     int       `json:"v"`
	Name  string    `json:"name,omitempty"`
	Sup   *rpSup    `json:"sup,omitempty"`
	Whole bool      `json:"whole,omitempty"` // caps: in an APK
}

type rpSup struct {
	V2      bool `json:"v2"`
	V3      bool `json:"v3"`
	V31     bool `json:"v31"`
	Sandbox bool `json:"sandbox"`
	Stamp   bool `json:"stamp"`
}

// the named block identifiers, each after and before identifiers next to it
func rpBlock(v int) signingblock.BlockId {
	ids := []uint32{0x504b4453, 0x71777777, 0x2b09189e, 0x6dff800d, 0x42726577, 0x7109871a, 0xf05368c0, 0x1b93ad61, 0x2146444e, 0x00000001}
	return signingblock.BlockId(int64(ids[v/3]) + int64(v%3) - 1)
}

func rpCert(c string) *x509.Certificate {
	name := map[string]string{"a": "rsaA", "aTwin": "rsaA", "sameName": "fakeRA", "sameSerial": "twinR", "sameKey": "rsaA"}[c]
	raw := append([]byte{}, certX509[name].Raw...)
	if c == "sameKey" { // all the same but the signature
		raw[len(raw)-1] ^= 1
	}
	x, err := x509.ParseCertificate(raw)
	must(err)
	return x
}

func rpList(l []rpNode) (out signingblock.V3LineageSigningCertificateNodeList) {
	for _, n := range l {
		out = append(out, &signingblock.V3LineageSigningCertificateNode{SigningCert: rpCert(n.C), ParentSigAlgorithm: signingblock.SignatureAlgorithm(n.Pa), SigAlgorithm: signingblock.SignatureAlgorithm(n.Na), Signature: []byte(n.S), Flags: signingblock.LineageCertCaps(n.F)})
	}
	return
}

// dumped: what is missing from the dump of a node
func rpDumped(n *signingblock.V3LineageSigningCertificateNode) string {
	var w bytes.Buffer
	if err := n.Dump(&w); err != nil {
		return "dump: " + err.Error()
	}
	fp, sg := sha1.Sum(n.SigningCert.Raw), sha1.Sum(n.Signature)
	for _, s := range []string{hex.EncodeToString(fp[:]), hex.EncodeToString(sg[:]), fmt.Sprint(n.SigningCert.NotBefore), fmt.Sprint(n.SigningCert.NotAfter),
		"Issuer: " + signingblock.PkixNameToString(&n.SigningCert.Issuer) + "\n", "Subject: " + signingblock.PkixNameToString(&n.SigningCert.Subject) + "\n",
		"ParentSigAlgorithm: " + n.ParentSigAlgorithm.String() + "\n", "\nSigAlgorithm: " + n.SigAlgorithm.String() + "\n", "(" + n.Flags.String() + ")", fmt.Sprintf("%x", uint32(n.Flags))} {
		if !strings.Contains(w.String(), s) {
			return fmt.Sprintf("the dump lacks %q: %q", s, w.String())
		}
	}
	return ""
}

func (c rpCase) caps(f signingblock.LineageCertCaps) string {
	var want []string
	for _, t := range c.Text {
		if t.Name != "" {
			want = append(want, t.Name)
		} else {
			want = append(want, "bit "+strconv.Itoa(t.Bit))
		}
	}
	var got []string
	s := f.String()
	if s != "None" {
		for _, w := range strings.Split(s, "|") {
			if x, err := strconv.ParseUint(w, 0, 64); err == nil {
				for b := 0; b < 64; b++ {
					if x>>b&1 == 1 {
						got = append(got, "bit "+strconv.Itoa(b))
					}
				}
			} else {
				got = append(got, w)
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, ",") != strings.Join(got, ",") {
		return fmt.Sprintf("flags %v: specified %v, got %q", c.Bits, want, s)
	}
	return ""
}

func (c rpCase) run() string {
	switch c.Mode {
	case "caps":
		fl := uint32(0)
		for _, b := range c.Bits {
			fl |= 1 << b
		}
		if d := c.caps(signingblock.LineageCertCaps(fl)); d != "" || !c.Whole {
			return d
		}
		lin := demoLin("ecA", "ecB")
		lin.Nodes[len(c.Bits)%2].Fl = int(fl)
		s := validSigner("ec256", "ecB", 28, maxInt)
		s.Attrs = []Attr{lin}
		r, err := apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(build(apkWith([]Pair{pr("v3", s)}, false)).data), nil, 28, maxInt)
		if err != nil || r.SigningBlockResult == nil || r.SigningBlockResult.SigningLineage == nil || len(r.SigningBlockResult.SigningLineage.Nodes) != 2 {
			return fmt.Sprintf("flags %v: no lineage, %v", c.Bits, err)
		}
		if d := c.caps(r.SigningBlockResult.SigningLineage.Nodes[len(c.Bits)%2].Flags); d != "" {
			return d
		}
		for _, n := range r.SigningBlockResult.SigningLineage.Nodes {
			if d := rpDumped(n); d != "" {
				return d
			}
		}
	case "lineage":
		a, b := rpList(c.L1), rpList(c.L2)
		if a.Equal(b) != c.Eq || b.Equal(a) != c.Eq {
			return fmt.Sprintf("specified equal=%v, got %v and, the other way round, %v", c.Eq, a.Equal(b), b.Equal(a))
		}
		if !a.Equal(a) || !a.Equal(rpList(c.L1)) {
			return "a lineage differs from itself"
		}
		for _, n := range b {
			if d := rpDumped(n); d != "" {
				return d
			}
		}
	}
	return ""
}

// rpText: the text of a value
func (c rpCase) rpText() string {
	switch c.Kind {
	case "level":
		return apilevel.String(int32(c.V))
	case "algo":
		return signingblock.SignatureAlgorithm(c.V).String()
	}
	return rpBlock(c.V).String()
}

// rpValue: a known value is called by its name, any other by its number
func (c rpCase) rpValue() string {
	t := c.rpText()
	if c.Name != "" {
		if t != c.Name {
			return fmt.Sprintf("%s %d is called %q, not %q", c.Kind, c.V, t, c.Name)
		}
	} else {
		v := int64(c.V)
		if c.Kind == "block" {
			v = int64(uint32(rpBlock(c.V)))
		}
		if !strings.Contains(t, strconv.FormatInt(v, 10)) && !strings.Contains(strings.ToLower(t), strconv.FormatInt(v, 16)) {
			return fmt.Sprintf("%s %d is called %q, which does not say its value", c.Kind, v, t)
		}
	}
	if c.Kind == "level" {
		v := int32(c.V)
		if got := (rpSup{apilevel.SupportsSigV2(v), apilevel.SupportsSigV3(v), apilevel.SupportsSigV31(v), apilevel.RequiresSandboxV2(v), apilevel.SupportsStampVerification(v)}); got != *c.Sup {
			return fmt.Sprintf("level %d: specified %+v, got %+v", v, *c.Sup, got)
		}
	}
	return ""
}

// reportMain: cases on the standard input, what is wrong with them on the output
func reportMain() {
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMaxStack(64 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	for in.Scan() {
		var c rpCase
		must(json.Unmarshal(in.Bytes(), &c))
		d := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					d = fmt.Sprintf("panic: %v", p)
				}
			}()
			if c.Mode == "value" {
				if d = c.rpValue(); d == "" {
					d = "=" + c.rpText()
				}
			} else {
				d = c.run()
			}
		}()
		j, _ := json.Marshal(d)
		fmt.Printf("%s\n", j)
	}
}

// rpRun: the answers to the cases; a case that ends the process is one that crashed
func rpRun(lines []string) []string {
	var out []string
	for crashes := 0; len(out) < len(lines); crashes++ {
		if crashes > 5 {
			for len(out) < len(lines) {
				out = append(out, "skipped")
			}
			break
		}
		cmd := exec.Command(os.Args[0], "report")
		cmd.Stdin = strings.NewReader(strings.Join(lines[len(out):], "\n") + "\n")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		po, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		hung := false
		t := time.AfterFunc(300*time.Second, func() { hung = true; cmd.Process.Kill() })
		sc := bufio.NewScanner(po)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var d string
			if json.Unmarshal(sc.Bytes(), &d) != nil {
				fatal("report: %q", sc.Text())
			}
			out = append(out, d)
		}
		err = cmd.Wait()
		t.Stop()
		if len(out) < len(lines) {
			what := "crashed: " + firstLine(strings.TrimPrefix(stderr.String(), "runtime: "))
			if hung {
				what = "no answer"
			} else if err == nil {
				fatal("report: answers are missing")
			}
			out = append(out, what)
		}
	}
	return out
}

func reportCfg(mode string, edits int, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Mode = %q\nCONSTANT MaxEdits = %d\nCONSTANT Mutant = %q\nINVARIANT Said\nINVARIANT Same\nINVARIANT Apart\nCHECK_DEADLOCK FALSE\n", mode, edits, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func reportEngine(r *report, prop, tier string, seed int) {
	mustViolate("Report", reportCfg("caps", 1, "short", false), "Said", seed)
	mustViolate("Report", reportCfg("caps", 1, "known", false), "Said", seed)
	mustViolate("Report", reportCfg("lineage", 1, "sig", false), "Same", seed)
	mustViolate("Report", reportCfg("lineage", 1, "prefix", false), "Same", seed)
	mustViolate("Report", reportCfg("value", 1, "names", false), "Apart", seed)
	for _, mode := range []string{"caps", "lineage", "value"} {
		edits := 2
		if tier == "thorough" {
			edits = 3
		}
		var lines []string
		st := runTLC("Report", reportCfg(mode, edits, "none", true), seed, nil, nil, func(s string) { lines = append(lines, s) })
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
		sort.Strings(lines)
		cases := make([]rpCase, len(lines))
		for i := range lines {
			if err := json.Unmarshal([]byte(lines[i]), &cases[i]); err != nil {
				fatal("report: %v: %.200s", err, lines[i])
			}
			cases[i].Whole = mode == "caps" && (tier == "thorough" || caseHash(lines[i], seed)%4 == 0)
			j, _ := json.Marshal(cases[i])
			lines[i] = string(j)
		}
		answers := make([]string, len(lines))
		var mu sync.Mutex
		const step = 500
		parallel((len(lines)+step-1)/step, func(k int) {
			hi := min((k+1)*step, len(lines))
			a := rpRun(lines[k*step : hi])
			mu.Lock()
			copy(answers[k*step:], a)
			mu.Unlock()
		})
		seen := map[string]int{}
		for i, d := range answers {
			if mode == "value" {
				if strings.HasPrefix(d, "=") {
					key := cases[i].Kind + d
					if j, dup := seen[key]; dup {
						d = fmt.Sprintf("%s %d and %d are both called %q", cases[i].Kind, cases[j].V, cases[i].V, d[1:])
					} else {
						seen[key] = i
						d = ""
					}
				}
			}
			if d != "" && d != "skipped" {
				r.add(violation{Prop: prop, Engine: "report", What: d, Extra: cases[i]})
			} else if i == len(answers)/2 {
				r.sample(cases[i])
			}
			r.note("report_"+mode, 1)
			r.calls++
		}
	}
}

func init() {
	engines["C31"] = reportEngine
	replayers["report"] = func(v violation) string {
		j, _ := json.Marshal(v.Extra)
		if d := rpRun([]string{string(j)})[0]; !strings.HasPrefix(d, "=") {
			return d
		}
		return ""
	}
}

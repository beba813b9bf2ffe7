package main

// C21: calls one after another (spec/History.tla).

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"

	"crypto/x509"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// --- everything a call says, in one string ---

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("%T: %s", err, err.Error())
}

func certsText(cc [][]*x509.Certificate) string { return fmt.Sprint(chainNames(cc)) }

func blockText(r *signingblock.VerificationResult) string {
	if r == nil {
		return "-"
	}
	var s strings.Builder
	fmt.Fprintf(&s, "{scheme %d certs %s lineage %v extra", r.SchemeId, certsText(r.Certs), lineage(r.SigningLineage))
	for _, n := range extraNames(r.ExtraBlocks, nil) {
		s.WriteString(" " + n)
	}
	var ids []int
	for id := range r.ExtraBlocks {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&s, " %x", r.ExtraBlocks[signingblock.BlockId(id)])
	}
	ids = nil
	for id := range r.ExtraResults {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&s, " result %d %s", id, blockText(r.ExtraResults[id]))
	}
	if st := r.SourceStamp; st != nil {
		fmt.Fprintf(&s, " stamp %+v errors", stampObs(st))
		for _, e := range st.Errors {
			s.WriteString(" " + errText(e))
		}
		fmt.Fprintf(&s, " warnings %v", st.Warnings)
	}
	if f := r.Frosting; f != nil {
		fmt.Fprintf(&s, " frosting %s %s %x", errText(f.Error), f.KeySha256, f.ProtobufInfo)
	}
	s.WriteString(" errors")
	for _, e := range r.Errors {
		s.WriteString(" " + errText(e))
	}
	fmt.Fprintf(&s, " warnings %q}", r.Warnings)
	return s.String()
}

// --- the ways to give a file ---

type seekOnly struct{ io.ReadSeeker }

type shortReader struct{ io.ReadSeeker } // a few bytes at a time
func (s shortReader) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:1+len(p)/3]
	}
	return s.ReadSeeker.Read(p)
}

type hFile struct {
	data   []byte
	path   string
	shared io.ReadSeeker
	hpath  *apkparser.ZipReader
	hsame  *apkparser.ZipReader
	want   map[string]string // entry -> content
	order  []string
}

func newHFile(data []byte, path string) *hFile {
	must(os.WriteFile(path, data, 0644))
	return &hFile{data: data, path: path, shared: seekOnly{bytes.NewReader(data)}}
}

func (h *hFile) close() {
	if h.hpath != nil {
		h.hpath.Close()
	}
	if h.hsame != nil {
		h.hsame.Close()
	}
}

// give calls f with a reader (or a path) and an optional handle, as via says.
func (h *hFile) give(via string, f func(path string, rd io.ReadSeeker, zip *apkparser.ZipReader)) error {
	var err error
	switch via {
	case "path":
		f(h.path, nil, nil)
	case "bytes-start":
		f("", bytes.NewReader(h.data), nil)
	case "bytes-end":
		rd := bytes.NewReader(h.data)
		rd.Seek(0, io.SeekEnd)
		f("", rd, nil)
	case "file-mid":
		fl, err := os.Open(h.path)
		if err != nil {
			return err
		}
		defer fl.Close()
		fl.Seek(int64(len(h.data)/2), io.SeekStart)
		f("", fl, nil)
		if _, err := fl.Seek(0, io.SeekCurrent); err != nil {
			return fmt.Errorf("the file given is not usable any more: %v", err)
		}
	case "seek-mid":
		rd := seekOnly{bytes.NewReader(h.data)}
		rd.Seek(int64(len(h.data)/3), io.SeekStart)
		f("", rd, nil)
	case "short-start":
		f("", shortReader{bytes.NewReader(h.data)}, nil)
	case "shared":
		f("", h.shared, nil)
	case "hpath":
		if h.hpath == nil {
			if h.hpath, err = apkparser.OpenZip(h.path); err != nil {
				h.hpath = nil
				return nil // a file which is no archive: nothing to share
			}
		}
		f(h.path, bytes.NewReader(h.data), h.hpath)
	case "hsame":
		if h.hsame == nil {
			if h.hsame, err = apkparser.OpenZipReader(h.shared); err != nil {
				h.hsame = nil
				return nil
			}
		}
		f("", h.shared, h.hsame)
	default:
		fatal("via %q", via)
	}
	return nil
}

type hRange struct{ Min, Max int }

func (h *hFile) call(call, via string, rg hRange, scribble bool) (out string) {
	g := guard(callLimit, func() {
		err := h.give(via, func(path string, rd io.ReadSeeker, zip *apkparser.ZipReader) {
			if call == "entries" {
				out = h.entries(zip)
			} else {
				out = say(call, path, rd, zip, rg, scribble)
			}
		})
		if err != nil {
			out = err.Error()
		}
	})
	if g.panicked != "" {
		out = "panic " + g.panicked
	} else if g.hang {
		out = "hang"
	}
	return out
}

// say makes one call and tells all of its answer.
func say(call, path string, rd io.ReadSeeker, zip *apkparser.ZipReader, rg hRange, scribble bool) (out string) {
	switch call {
	case "verify":
		var r apkverifier.Result
		var err error
		if any := rg.Min == -1 && rg.Max == maxInt; any && path != "" {
			r, err = apkverifier.Verify(path, zip)
		} else if any {
			r, err = apkverifier.VerifyReader(rd, zip)
		} else if path != "" {
			r, err = apkverifier.VerifyWithSdkVersion(path, zip, int32(rg.Min), int32(rg.Max))
		} else {
			r, err = apkverifier.VerifyWithSdkVersionReader(rd, zip, int32(rg.Min), int32(rg.Max))
		}
		out = fmt.Sprintf("%s scheme %d certs %s block %s", errText(err), r.SigningSchemeId, certsText(r.SignerCerts), blockText(r.SigningBlockResult))
		if scribble {
			scribbleOn(r.SignerCerts, r.SigningBlockResult)
		}
	case "block":
		var r *signingblock.VerificationResult
		var err error
		var magic uint32
		if path != "" && zip == nil {
			r, magic, err = signingblock.VerifySigningBlock(path, int32(rg.Min), int32(rg.Max))
		} else if zip == nil {
			r, magic, err = signingblock.VerifySigningBlockReader(rd, int32(rg.Min), int32(rg.Max))
		} else {
			r, magic, err = signingblock.VerifySigningBlockReaderWithZip(rd, int32(rg.Min), int32(rg.Max), zip)
		}
		out = fmt.Sprintf("%s magic %x block %s", errText(err), magic, blockText(r))
		if scribble {
			scribbleOn(nil, r)
		}
	case "extract":
		var c, c2 [][]*x509.Certificate
		var err, err2 error
		if path != "" {
			c, err = apkverifier.ExtractCerts(path, zip)
			c2, err2 = signingblock.ExtractCerts(path, -1, maxInt)
		} else {
			c, err = apkverifier.ExtractCertsReader(rd, zip)
			c2, err2 = signingblock.ExtractCertsReader(rd, -1, maxInt)
		}
		out = fmt.Sprintf("%s certs %s; %s certs %s", errText(err), certsText(c), errText(err2), certsText(c2))
		if scribble {
			scribbleOn(c, nil)
		}
	case "pick":
		var c [][]*x509.Certificate
		if path != "" {
			c, _ = apkverifier.ExtractCerts(path, zip)
		} else {
			c, _ = apkverifier.ExtractCertsReader(rd, zip)
		}
		ci, cert := apkverifier.PickBestApkCert(c)
		out = certNm(cert)
		if ci != nil {
			out += " " + ci.String()
		}
	default:
		fatal("history call %q", call)
	}
	return out
}

func scribbleOn(certs [][]*x509.Certificate, r *signingblock.VerificationResult) {
	for i := range certs {
		for j := range certs[i] {
			certs[i][j] = certX509["edA"]
		}
	}
	if r == nil {
		return
	}
	scribbleOn(r.Certs, nil)
	for id, v := range r.ExtraBlocks {
		for i := range v {
			v[i] ^= 0x55
		}
		r.ExtraBlocks[id] = nil
	}
	for _, x := range r.ExtraResults {
		scribbleOn(nil, x)
	}
	if l := r.SigningLineage; l != nil {
		for _, n := range l.Nodes {
			n.Flags ^= 0xff
			n.SigningCert = certX509["edA"]
		}
	}
	if r.Frosting != nil {
		for i := range r.Frosting.ProtobufInfo {
			r.Frosting.ProtobufInfo[i] ^= 0x55
		}
	}
	if r.SourceStamp != nil {
		r.SourceStamp.Cert = certX509["edA"]
		for _, n := range r.SourceStamp.Lineage {
			n.Flags ^= 0xff
		}
	}
}

// entries reads all the entries through a handle.
func (h *hFile) entries(zip *apkparser.ZipReader) string {
	var out []string
	for n, f := range zip.File {
		d, err := f.ReadAll(1 << 30)
		out = append(out, fmt.Sprintf("%s %d %s %v", n, len(d), hashHex(d), err))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type hEvent struct {
	K   string `json:"k"`
	F   int    `json:"f"`
	R   int    `json:"r"`
	Via string `json:"via"`
}

var hRanges = []hRange{{-1, maxInt}, {24, 27}, {28, maxInt}, {14, 23}, {24, 30}, {28, 32}, {21, 33}}

// hScene: two files and two ranges.
type hScene struct {
	Data   [2][]byte `json:"-"`
	Files  [2]string `json:"files"` // base64
	Ranges [2]hRange `json:"ranges"`
	base   map[string]string
}

type hJob struct {
	Data string `json:"data"`
	Call string `json:"call"`
	Min  int    `json:"min"`
	Max  int    `json:"max"`
}

// oneshot: the call alone in a process of its own.
func oneshot(data []byte, call string, rg hRange, via string) string {
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	j, _ := json.Marshal(hJob{base64.StdEncoding.EncodeToString(data), call + "/" + via, rg.Min, rg.Max})
	cmd := exec.Command(self, "oneshot")
	cmd.Stdin = bytes.NewReader(j)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("oneshot: %v", err)
	}
	return string(out)
}

func oneshotMain() {
	var j hJob
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp("", "verif-one")
	must(err)
	defer os.RemoveAll(dir)
	data, err := base64.StdEncoding.DecodeString(j.Data)
	must(err)
	h := newHFile(data, filepath.Join(dir, "a.apk"))
	f := strings.SplitN(j.Call, "/", 2)
	fmt.Print(h.call(f[0], f[1], hRange{j.Min, j.Max}, false))
	h.close()
}

func (s *hScene) key(e hEvent) string {
	if e.K == "entries" || e.K == "extract" || e.K == "pick" {
		e.R = 1
	}
	return fmt.Sprintf("%s/%d/%d", e.K, e.F, e.R)
}

func (s *hScene) baseline() {
	s.base = map[string]string{}
	for f := 1; f <= 2; f++ {
		for _, c := range []string{"verify", "block", "extract", "pick", "entries"} {
			for rg := 1; rg <= 2; rg++ {
				if rg == 2 && c != "verify" && c != "block" {
					continue
				}
				via := "bytes-start"
				if c == "entries" {
					via = "hpath"
				}
				s.base[fmt.Sprintf("%s/%d/%d", c, f, rg)] = oneshot(s.Data[f-1], c, s.Ranges[rg-1], via)
			}
		}
	}
}

// play runs a history; says how it differs from every call made alone.
func (s *hScene) play(hist []hEvent, dir string) string {
	var fs [2]*hFile
	for i := range fs {
		fs[i] = newHFile(s.Data[i], filepath.Join(dir, fmt.Sprintf("%d.apk", i)))
		defer fs[i].close()
	}
	for i, e := range hist {
		h := fs[e.F-1]
		if e.K == "scribble" {
			for _, c := range []string{"verify", "block", "extract"} {
				h.call(c, e.Via, s.Ranges[0], true)
			}
			continue
		}
		got := h.call(e.K, e.Via, s.Ranges[e.R-1], false)
		if want := s.base[s.key(e)]; got != want {
			if got == "" && (e.Via == "hpath" || e.Via == "hsame") { // no archive
				continue
			}
			return fmt.Sprintf("call %d of %v (range %v) says %.600s\nalone it says %.600s", i+1, hist, s.Ranges[e.R-1], got, want)
		}
	}
	return ""
}

func sceneViolation(prop, engine, d string, s *hScene, hist []hEvent) violation {
	for i := range s.Data {
		s.Files[i] = base64.StdEncoding.EncodeToString(s.Data[i])
	}
	return violation{Prop: prop, Engine: engine, What: d, Extra: map[string]interface{}{"scene": s, "history": hist}}
}

// allBases: the base APKs of every property, with what the specification says of each call.
func (r *report) allBases(seed int) (corpus, good []json.RawMessage, calls []callSpec) {
	return r.replayModel("all", 0, 0, seed)
}

// mutants: n APKs derived from the corpus by random edits.
func mutants(n int, seed int64, corpus, good []json.RawMessage, facet string) []*Apk {
	pool := map[reflect.Type][]reflect.Value{}
	learner := &mutator{rng: rand.New(rand.NewSource(seed)), pool: pool}
	for _, j := range corpus {
		learner.learn(cloneApk(j))
	}
	re := regexp.MustCompile(facet)
	out := make([]*Apk, n)
	parallel(n, func(i int) {
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		m := &mutator{rng: rng, re: re, pool: pool}
		for {
			a := cloneApk(good[rng.Intn(len(good))])
			if rng.Intn(3) == 0 {
				a = cloneApk(corpus[rng.Intn(len(corpus))])
			}
			for k := rng.Intn(4); k > 0; {
				if m.mutate(a) {
					k--
				}
			}
			if admissible(a, "block") {
				out[i] = a
				return
			}
		}
	})
	return out
}

// deterministic: the same call on the same file, given in every way, several times.
func (r *report) deterministic(prop string, as []*Apk, seed int64, reps int, rgs ...hRange) {
	vias := []string{"bytes-start", "path", "bytes-end", "file-mid", "seek-mid", "short-start", "shared", "hpath", "hsame", "shared", "hsame", "bytes-start"}
	parallel(len(as), func(i int) {
		rng := rand.New(rand.NewSource(seed*77 + int64(i)))
		dir, err := os.MkdirTemp(scratch(), "det")
		must(err)
		defer os.RemoveAll(dir)
		data := build(as[i]).data
		h := newHFile(data, filepath.Join(dir, "a.apk"))
		defer h.close()
		rg := hRanges[rng.Intn(len(hRanges))]
		if len(rgs) > 0 {
			rg = rgs[0]
		}
		n := 0
		for _, call := range []string{"verify", "block", "extract", "pick"} {
			first := ""
			for k := 0; k < reps; k++ {
				via := vias[k%len(vias)]
				got := h.call(call, via, rg, false)
				n++
				if got == "" {
					continue
				}
				if first == "" {
					first = got
				} else if got != first {
					s := &hScene{Data: [2][]byte{data, data}, Ranges: [2]hRange{rg, rg}}
					v := sceneViolation(prop, "repeat", fmt.Sprintf("%s (range %v) given as %s the %dth time says %.600s\nat first it says %.600s", call, rg, via, k+1, got, first), s, []hEvent{{call, 1, 1, via}})
					v.Apk, _ = json.Marshal(as[i])
					r.add(v)
					break
				}
			}
		}
		r.mu.Lock()
		r.calls += n
		r.notes["repeated_calls"] += n
		r.mu.Unlock()
	})
}

func historyEngine(r *report, prop, tier string, seed int) {
	cfg := "SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Full = %d\nCONSTANT Sample = %d\nINVARIANT Holds\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
	nScenes, nDet, reps := 24, 1500, 14
	if tier == "thorough" {
		cfg = fmt.Sprintf(cfg, 4, 2, 6)
		nScenes, nDet, reps = 120, 15000, 26
	} else {
		cfg = fmt.Sprintf(cfg, 3, 1, 12)
	}
	corpus, good, _ := r.allBases(seed)
	var hists [][]hEvent
	st := runTLC("History", cfg, seed, nil, nil, func(s string) {
		var h []hEvent
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			fatal("history: %v: %.200s", err, s)
		}
		hists = append(hists, h)
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Slice(hists, func(i, j int) bool { return fmt.Sprint(hists[i]) < fmt.Sprint(hists[j]) })

	// scenes: a file and another one, most often a near copy of it
	ms := mutants(2*nScenes, int64(seed), corpus, good, `.`)
	scenes := make([]*hScene, nScenes)
	parallel(nScenes, func(i int) {
		rng := rand.New(rand.NewSource(int64(seed)*31 + int64(i)))
		s := &hScene{}
		a := cloneApk(good[rng.Intn(len(good))])
		s.Data[0] = build(a).data
		switch i % 3 {
		case 0: // a tampered copy of the same size
			b := build(a)
			k := b.sbOff / 3
			if i%2 == 0 && b.sbEnd > b.sbOff+120 {
				k = b.sbOff + 110
			}
			b.data[k] ^= 1
			s.Data[1] = b.data
		case 1:
			s.Data[1] = build(ms[2*i]).data
		case 2:
			s.Data[1] = build(cloneApk(good[rng.Intn(len(good))])).data
		}
		s.Ranges = [2]hRange{hRanges[rng.Intn(len(hRanges))], hRanges[rng.Intn(len(hRanges))]}
		s.baseline()
		scenes[i] = s
	})
	var mu sync.Mutex
	parallel(len(hists), func(i int) {
		s := scenes[i%nScenes]
		dir, err := os.MkdirTemp(scratch(), "h")
		must(err)
		defer os.RemoveAll(dir)
		d := s.play(hists[i], dir)
		mu.Lock()
		defer mu.Unlock()
		r.calls += len(hists[i])
		if d != "" {
			r.add(sceneViolation(prop, "history", d, s, hists[i]))
		} else if i%(len(hists)/6+1) == 0 {
			r.sample(hists[i])
		}
	})
	r.note("histories", len(hists))
	r.deterministic(prop, mutants(nDet, int64(seed)*17, corpus, good, `.`), int64(seed), reps)
	// every case the verifier's own module starts from, over ranges in which different schemes speak
	whole := make([]*Apk, len(good))
	for i := range good {
		whole[i] = cloneApk(good[i])
	}
	for _, rg := range []hRange{{-1, maxInt}, {24, 27}, {28, 32}, {33, maxInt}} {
		r.deterministic(prop, whole, int64(seed), 2*reps, rg)
	}
}

func init() {
	engines["C21"] = historyEngine
	rep := func(v violation) string {
		var x struct {
			Scene   hScene   `json:"scene"`
			History []hEvent `json:"history"`
		}
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &x); err != nil {
			fatal("%v", err)
		}
		for i := range x.Scene.Data {
			x.Scene.Data[i], _ = base64.StdEncoding.DecodeString(x.Scene.Files[i])
		}
		x.Scene.baseline()
		for k := 0; k < 40; k++ {
			dir, err := os.MkdirTemp(scratch(), "h")
			must(err)
			if d := x.Scene.play(x.History, dir); d != "" {
				return d
			}
		}
		return ""
	}
	replayers["history"] = rep
	replayers["repeat"] = rep
}

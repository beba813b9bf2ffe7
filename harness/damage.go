package main

// C24: hostile files (spec/Damage.tla, spec/Scale.tla, spec/Parse.tla).

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/fullsailor/pkcs7"
	"github.com/avast/apkverifier/signingblock"
)

type damage struct {
	Part string `json:"part"`
	Op   string `json:"op"`
	Arg  string `json:"arg"`
	At   int    `json:"at"`
}

type dCase struct {
	ID     int      `json:"id"`
	Base   int      `json:"base"`
	Dmg    []damage `json:"dmg,omitempty"`
	Occ    int      `json:"occ"`
	Places int      `json:"places"`
	Shape  string   `json:"shape,omitempty"`
	Size   int      `json:"size,omitempty"` // KiB
	Seed   int64    `json:"seed"`
}

type dAnswer struct {
	ID      int            `json:"id"`
	Out     map[string]int `json:"out"`
	Panic   string         `json:"panic"`
	Ms      int            `json:"ms"`
	Alloc   uint64         `json:"alloc"`
	Size    int            `json:"size"`
	Changed bool           `json:"changed"`
	Site    string         `json:"site"` // of the biggest allocation, when there was too much of it
}

// --- DER trees, written back with the right lengths around a wrong one ---

type derNode struct {
	tag    []byte
	pre    []byte // the unused-bits byte of a BIT STRING which holds DER
	kids   []*derNode
	val    []byte
	rawLen []byte // instead of the length
	term   bool   // end-of-contents after
}

func parseDER(b []byte, depth int) ([]*derNode, bool) {
	var out []*derNode
	for len(b) > 0 {
		if len(b) < 2 || b[0]&0x1f == 0x1f || depth > 60 {
			return nil, false
		}
		n, h := int(b[1]), 2
		if b[1] >= 0x80 {
			k := int(b[1] & 0x7f)
			if k == 0 || k > 4 || len(b) < 2+k {
				return nil, false
			}
			n = 0
			for _, c := range b[2 : 2+k] {
				n = n<<8 | int(c)
			}
			h += k
		}
		if n < 0 || n > len(b)-h {
			return nil, false
		}
		nd := &derNode{tag: b[:1], val: b[h : h+n]}
		switch {
		case b[0]&0x20 != 0:
			if k, ok := parseDER(nd.val, depth+1); ok {
				nd.kids = k
				if len(k) > 0 {
					nd.val = nil
				}
			}
		case b[0] == 4 && n > 1:
			if k, ok := parseDER(nd.val, depth+1); ok && len(k) == 1 {
				nd.kids, nd.val = k, nil
			}
		case b[0] == 3 && n > 2 && nd.val[0] == 0:
			if k, ok := parseDER(nd.val[1:], depth+1); ok && len(k) == 1 {
				nd.pre, nd.kids, nd.val = []byte{0}, k, nil
			}
		}
		out = append(out, nd)
		b = b[h+n:]
	}
	return out, true
}

func (n *derNode) encode(out *bytes.Buffer) {
	var in bytes.Buffer
	in.Write(n.pre)
	in.Write(n.val)
	for _, k := range n.kids {
		k.encode(&in)
	}
	out.Write(n.tag)
	if n.rawLen != nil {
		out.Write(n.rawLen)
	} else {
		out.Write(derLen(in.Len()))
	}
	out.Write(in.Bytes())
	if n.term {
		out.Write([]byte{0, 0})
	}
}

func (n *derNode) bodyLen() int {
	var in bytes.Buffer
	in.Write(n.val)
	for _, k := range n.kids {
		k.encode(&in)
	}
	return in.Len() + len(n.pre)
}

func derNodes(ns []*derNode, out []*derNode) []*derNode {
	for _, n := range ns {
		out = append(out, n)
		out = derNodes(n.kids, out)
	}
	return out
}

func long(n int, v uint64) []byte { // length in n bytes
	out := []byte{0x80 | byte(n)}
	for i := n - 1; i >= 0; i-- {
		out = append(out, byte(v>>(8*uint(i))))
	}
	return out
}

func damageDER(b []byte, d damage, places int) []byte {
	roots, ok := parseDER(b, 0)
	if !ok || len(roots) == 0 {
		return b
	}
	all := derNodes(roots, nil)
	i := d.At * len(all) / places
	n := all[i]
	l := n.bodyLen()
	switch d.Op {
	case "dlen":
		switch d.Arg {
		case "zero":
			n.rawLen = []byte{0}
		case "less":
			n.rawLen = derLen(l - 1)
			if l == 0 {
				n.rawLen = derLen(0)
			}
		case "more":
			n.rawLen = derLen(l + 1)
		case "indef":
			n.rawLen, n.term = []byte{0x80}, true
		case "long4max":
			n.rawLen = long(4, 0x7fffffff)
		case "long4neg":
			n.rawLen = long(4, 0xffffffff)
		case "long8":
			n.rawLen = long(8, 0xffffffffffffffff)
		case "long0":
			n.rawLen = []byte{0x80}
		case "reserved":
			n.rawLen = []byte{0xff}
		case "nonmin":
			n.rawLen = long(2, uint64(l))
		case "nonmin5":
			n.rawLen = long(5, uint64(l))
		}
	case "dtag":
		t := map[string]byte{"zero": 0, "prim": n.tag[0] &^ 0x20, "cons": n.tag[0] | 0x20, "int": 2, "seq": 0x30, "oct": 4, "bool": 1, "null": 5, "utf8": 12, "bmp": 30, "oid": 6, "utc": 23, "gtime": 24, "enum": 10, "real": 9, "ctx0": 0xa0, "ctx1": 0xa1}
		switch d.Arg {
		case "high":
			n.tag = []byte{n.tag[0] | 0x1f, 0x81, 1}
		case "highlong":
			n.tag = append([]byte{n.tag[0] | 0x1f}, bytes.Repeat([]byte{0xff}, 20)...)
		default:
			n.tag = []byte{t[d.Arg]}
		}
	case "dval":
		kids := n.kids
		n.kids, n.pre = nil, nil
		switch d.Arg {
		case "empty":
			n.val = nil
		case "ff":
			n.val = bytes.Repeat([]byte{0xff}, l)
		case "zeros":
			n.val = make([]byte, l)
		case "cut":
			n.kids = kids
			if len(kids) > 0 {
				n.kids = kids[:len(kids)-1]
			} else if len(n.val) > 0 {
				n.val = n.val[:len(n.val)/2]
			}
		case "nest":
			n.val = nestDER(0x30, 2000, n.val)
		case "nestindef":
			n.val = append(bytes.Repeat([]byte{0x30, 0x80}, 2000), make([]byte, 4000)...)
		case "huge":
			n.val = bytes.Repeat([]byte{0x7f}, 100000)
		case "one":
			n.val = []byte{1}
		case "high":
			n.val = bytes.Repeat([]byte{0x80}, 9)
		}
	case "delem":
		var cut func(ns []*derNode) []*derNode
		cut = func(ns []*derNode) []*derNode {
			for j, x := range ns {
				if x == n {
					switch d.Arg {
					case "drop":
						return append(append([]*derNode{}, ns[:j]...), ns[j+1:]...)
					case "dup":
						return append(append([]*derNode{}, ns[:j+1]...), ns[j:]...)
					case "dup1000":
						out := append([]*derNode{}, ns[:j]...)
						for k := 0; k < 1000; k++ {
							out = append(out, x)
						}
						return append(out, ns[j+1:]...)
					case "swap":
						out := append([]*derNode{}, ns...)
						k := (j + 1) % len(ns)
						out[j], out[k] = out[k], out[j]
						return out
					}
				}
				x.kids = cut(x.kids)
			}
			return ns
		}
		roots = cut(roots)
	}
	var out bytes.Buffer
	for _, r := range roots {
		r.encode(&out)
	}
	return out.Bytes()
}

func nestDER(tag byte, n int, in []byte) []byte {
	// from the inside out, written backwards
	rev := make([]byte, 0, n*6+len(in))
	for i := len(in) - 1; i >= 0; i-- {
		rev = append(rev, in[i])
	}
	for i := 0; i < n; i++ {
		l := derLen(len(rev))
		for j := len(l) - 1; j >= 0; j-- {
			rev = append(rev, l[j])
		}
		rev = append(rev, tag)
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return rev
}

// --- other damage ---

func lpFields(b []byte) []int {
	var out []int
	for i := 0; i+4 <= len(b); i++ {
		if v := binary.LittleEndian.Uint32(b[i:]); v >= 1 && uint64(v) <= uint64(len(b)-i-4) {
			out = append(out, i)
		}
	}
	return out
}

func damagePart(b []byte, d damage, places int, rng *rand.Rand) []byte {
	b = append([]byte{}, b...)
	at := d.At * len(b) / places
	switch d.Op {
	case "len32":
		f := lpFields(b)
		switch d.Part {
		case "local", "cd", "eocd", "sb", "pairs", "file", "frost", "frostMeta", "axml":
			f = nil
			for i := 0; i+4 <= len(b); i += 2 {
				f = append(f, i)
			}
		}
		if len(f) == 0 {
			return b
		}
		i := f[d.At*len(f)/places]
		v := binary.LittleEndian.Uint32(b[i:])
		rest := uint32(len(b) - i - 4)
		v = map[string]uint32{"zero": 0, "one": 1, "less": v - 1, "more": v + 1, "more4": v + 4, "rest": rest, "past": rest + 1, "max31": 0x7fffffff, "neg": 0x80000000, "max32": 0xffffffff, "neg4": 0xfffffffc, "neg16": 0xfffffff0}[d.Arg]
		binary.LittleEndian.PutUint32(b[i:], v)
	case "len16":
		if len(b) < 2 {
			return b
		}
		i := d.At * (len(b) - 1) / places
		v := binary.LittleEndian.Uint16(b[i:])
		v = map[string]uint16{"zero": 0, "one": 1, "less": v - 1, "more": v + 1, "max16": 0xffff, "neg16b": 0x8000}[d.Arg]
		binary.LittleEndian.PutUint16(b[i:], v)
	case "len64":
		if len(b) < 8 {
			return b
		}
		i := d.At * (len(b) - 7) / places
		if d.Part == "sb" && d.At%3 == 0 { // the sizes at the ends
			i = 0
			if d.At%2 == 1 {
				i = len(b) - 24
			}
		}
		v := binary.LittleEndian.Uint64(b[i:])
		v = map[string]uint64{"zero": 0, "max63": 1<<63 - 1, "neg": 1 << 63, "max32": 0xffffffff, "more": v + 1, "less": v - 1}[d.Arg]
		binary.LittleEndian.PutUint64(b[i:], v)
	case "dlen", "dtag", "dval", "delem":
		return damageDER(b, d, places)
	case "line":
		return damageText(b, d, places)
	case "bytes":
		if len(b) == 0 {
			return b
		}
		switch d.Arg {
		case "flip":
			b[at] ^= 1 << uint(rng.Intn(8))
		case "cut":
			b = b[:at]
		case "cut1":
			b = b[:len(b)-1]
		case "cut4":
			if len(b) > 4 {
				b = b[:len(b)-4]
			}
		case "drop1":
			b = append(b[:at], b[at+1:]...)
		case "drop4":
			if at+4 <= len(b) {
				b = append(b[:at], b[at+4:]...)
			}
		case "zeros", "ones":
			for i := at; i < at+8 && i < len(b); i++ {
				b[i] = 0
				if d.Arg == "ones" {
					b[i] = 0xff
				}
			}
		case "insert":
			b = append(b[:at:at], append([]byte{0xde, 0xad, 0xbe, 0xef}, b[at:]...)...)
		case "insertbig":
			b = append(b[:at:at], append(bytes.Repeat([]byte{'A'}, 70000), b[at:]...)...)
		case "swap":
			b = append(append([]byte{}, b[at:]...), b[:at]...)
		}
	case "whole":
		switch d.Arg {
		case "empty":
			b = nil
		case "one":
			b = []byte{1}
		case "zeros64k":
			b = make([]byte, 65536)
		case "ones64k":
			b = bytes.Repeat([]byte{0xff}, 65536)
		case "twice":
			b = append(b, b...)
		case "times100":
			if len(b) < 20000 {
				b = bytes.Repeat(b, 100)
			}
		case "tail64k":
			b = append(b, make([]byte, 65536)...)
		case "random":
			rng.Read(b)
		}
	}
	return b
}

func damageText(b []byte, d damage, places int) []byte {
	lines := bytes.SplitAfter(b, []byte("\n"))
	i := d.At * len(lines) / places
	l := string(lines[i])
	eol := "\r\n"
	if !strings.HasSuffix(l, eol) {
		eol = "\n"
	}
	body := strings.TrimRight(l, "\r\n")
	switch d.Arg {
	case "drop":
		l = ""
	case "dup":
		l += l
	case "join":
		l = body
	case "nocolon":
		l = strings.Replace(l, ":", "", 1)
	case "nospace":
		l = strings.Replace(l, ": ", ":", 1)
	case "empty":
		l = eol
	case "huge":
		l = body + strings.Repeat("x", 300000) + eol
	case "cont":
		l = body + eol + " " + eol
	case "contmany":
		l = body + strings.Repeat(eol+" a", 50000) + eol
	case "nul":
		l = body + "\x00" + eol
	case "utf":
		l = body + "\xff\xfe\xc3\x28" + eol
	case "cr":
		l = body + "\r"
	case "trunc":
		lines = lines[:i+1]
		l = body[:len(body)/2]
	case "novalue":
		if j := strings.Index(l, ":"); j >= 0 {
			l = l[:j+1] + eol
		}
	case "noname":
		if j := strings.Index(l, ":"); j >= 0 {
			l = l[j:]
		}
	case "longname":
		l = strings.Repeat("N", 300) + l
	case "spaces":
		l = " " + l
	case "dash":
		l = "-Digest: x" + eol + "-Digest-Manifest: " + eol + "Digest-Algorithms: , ,, -" + eol + "SHA-999-Digest: AAAA" + eol + l
	}
	lines[i] = []byte(l)
	return bytes.Join(lines, nil)
}

// --- building a case ---

func (c *dCase) make(bases []json.RawMessage) (data []byte, total int, p7 [][]byte, changed bool) {
	if c.Shape != "" {
		data, total, p7 = makeShape(c.Shape, c.Size<<10, bases)
		return data, total, p7, true
	}
	a := cloneApk(bases[c.Base])
	rng := rand.New(rand.NewSource(c.Seed))
	seen := make([]int, len(c.Dmg))
	b := buildHooked(a, func(part string, p []byte) []byte {
		for i, d := range c.Dmg {
			if d.Part != part {
				continue
			}
			if seen[i]++; seen[i]-1 == c.Occ || (i > 0 && seen[i] == 1) {
				q := damagePart(p, d, c.Places, rng)
				if !bytes.Equal(p, q) {
					changed = true
				}
				p = q
			}
		}
		return p
	})
	total = len(b.data)
	for _, e := range b.ents {
		total += len(e.data)
		if strings.HasPrefix(e.name, "META-INF/") && !strings.HasSuffix(e.name, ".SF") && !strings.HasSuffix(e.name, ".MF") {
			p7 = append(p7, e.data)
		}
	}
	return b.data, total, p7, changed
}

// attack makes all the calls on a hostile file.
func attack(data []byte, p7 [][]byte, rg hRange, out map[string]int) {
	count := func(what string, err error) {
		if err == nil {
			out[what+"_ok"]++
		} else {
			out[what+"_err"]++
		}
	}
	rd := bytes.NewReader(data)
	for _, r := range []hRange{{-1, maxInt}, rg} {
		_, err := apkverifier.VerifyWithSdkVersionReader(rd, nil, int32(r.Min), int32(r.Max))
		count("verify", err)
	}
	_, _, err := signingblock.VerifySigningBlockReader(rd, int32(rg.Min), int32(rg.Max))
	count("block", err)
	certs, err := apkverifier.ExtractCertsReader(rd, nil)
	count("extract", err)
	if ci, _ := apkverifier.PickBestApkCert(certs); ci != nil {
		_ = ci.String()
	}
	_, err = signingblock.ExtractCertsReader(rd, -1, maxInt)
	count("extractblock", err)
	for _, p := range p7 {
		m, err := pkcs7.Parse(p)
		count("p7parse", err)
		if err != nil || m == nil {
			continue
		}
		if len(m.Content) == 0 {
			m.Content = []byte("content")
		}
		count("p7verify", m.Verify())
		m.GetOnlySigner()
		var t time.Time
		m.UnmarshalSignedAttribute(oidTime, &t)
		_, err = m.Decrypt(certX509["rsaA"], keys["rsaA"].rsa)
		count("p7decrypt", err)
	}
}

// --- workers ---

const workerMem = 3 << 30

func workerMain(basesFile string) {
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	d, err := os.ReadFile(basesFile)
	must(err)
	var bases []json.RawMessage
	must(json.Unmarshal(d, &bases))
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var c dCase
		must(json.Unmarshal(in.Bytes(), &c))
		ans := dAnswer{ID: c.ID, Out: map[string]int{}}
		data, total, p7, changed := c.make(bases)
		ans.Size, ans.Changed = total, changed
		if changed {
			if c.Shape != "" {
				runtime.GC()
			}
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			t0 := cpuTime()
			func() {
				defer func() {
					if p := recover(); p != nil {
						buf := make([]byte, 3000)
						ans.Panic = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
					}
				}()
				attack(data, p7, hRanges[int(c.Seed)%len(hRanges)], ans.Out)
			}()
			ans.Ms = int((cpuTime() - t0) / time.Millisecond)
			runtime.ReadMemStats(&m1)
			ans.Alloc = m1.TotalAlloc - m0.TotalAlloc
			if tooMuch(ans) {
				ans.Site = allocSite()
			}
		}
		j, _ := json.Marshal(ans)
		w.Write(append(j, '\n'))
		w.Flush()
	}
}

// cpuTime is what the process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func tooMuch(a dAnswer) bool {
	return float64(a.Alloc) > 256*(1<<20)*(1+float64(a.Size)/(1<<20))
}

// allocSite says where the process has allocated most.
func allocSite() string {
	runtime.GC()
	runtime.GC()
	recs := make([]runtime.MemProfileRecord, 10000)
	n, ok := runtime.MemProfile(recs, true)
	if !ok {
		return "?"
	}
	best := recs[0]
	for _, r := range recs[:n] {
		if r.AllocBytes > best.AllocBytes {
			best = r
		}
	}
	fr := runtime.CallersFrames(best.Stack())
	for {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "avast/"); i >= 0 && f.Function[:4] != "main" {
			return f.Function[i+6:]
		}
		if !more {
			return "?"
		}
	}
}

// deathSite says where a process has ended, by the trace it left.
func deathSite(trace string) string {
	for _, l := range strings.Split(trace, "\n") {
		if i := strings.Index(l, "github.com/avast/"); i == 0 {
			l = l[len("github.com/avast/"):]
			// not the arguments
			if j := strings.LastIndexByte(l, '('); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func startWorker(basesFile string) *worker {
	self, err := os.Executable()
	must(err)
	// memory beyond the limit ends the worker, not the machine
	w := &worker{cmd: exec.Command("bash", "-c", fmt.Sprintf("ulimit -v %d; exec \"$0\" \"$@\"", workerMem>>10), self, "worker", basesFile), err: &bytes.Buffer{}}
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	w.in, err = w.cmd.StdinPipe()
	must(err)
	o, err := w.cmd.StdoutPipe()
	must(err)
	w.cmd.Stderr = w.err
	must(w.cmd.Start())
	w.out = bufio.NewReader(o)
	return w
}

const damageLimit = 60 * time.Second

// ask says the worker's answer, or why there is none (then the worker is gone).
func (w *worker) ask(c dCase) (ans dAnswer, died string) {
	j, _ := json.Marshal(c)
	if _, err := w.in.Write(append(j, '\n')); err != nil {
		w.cmd.Wait()
		return ans, "the process ended: " + w.err.String()
	}
	got := make(chan error, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		if err == nil {
			err = json.Unmarshal(l, &ans)
		}
		got <- err
	}()
	t := time.NewTimer(damageLimit)
	defer t.Stop()
	select {
	case err := <-got:
		if err != nil {
			w.cmd.Wait()
			return ans, "the process ended: " + w.err.String()
		}
		return ans, ""
	case <-t.C:
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(500 * time.Millisecond)
		w.cmd.Process.Kill()
		w.cmd.Wait()
		return ans, fmt.Sprintf("no answer after %v: %s", damageLimit, w.err.String())
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func clean(s string) string {
	return strings.NewReplacer("(", "", ")", "", "*", "", "/", ".").Replace(s)
}

// judge says what is wrong with an answer, and a name for it if it can be told where it comes from.
func (c *dCase) judge(a dAnswer, died string) (bad, key string) {
	switch {
	case strings.Contains(died, "out of memory") || strings.Contains(died, "cannot allocate memory"):
		return died, "memory@" + clean(deathSite(died))
	case died != "":
		return died, ""
	case a.Panic != "":
		return "panic: " + a.Panic, ""
	}
	mb := float64(a.Size) / (1 << 20)
	if float64(a.Ms) > 15000+20000*mb {
		return fmt.Sprintf("took %d ms of CPU time for %d bytes", a.Ms, a.Size), ""
	}
	if tooMuch(a) {
		return fmt.Sprintf("allocated %d bytes for %d bytes, most of it in %s", a.Alloc, a.Size, a.Site), "memory@" + clean(a.Site)
	}
	return "", ""
}

func (c dCase) String() string {
	if c.Shape != "" {
		return fmt.Sprintf("%s of %d KiB", c.Shape, c.Size)
	}
	return fmt.Sprintf("%+v (occurrence %d)", c.Dmg, c.Occ)
}

// runCases gives every case to a pool of workers.
func runCases(cs []dCase, bases []json.RawMessage, done func(c dCase, a dAnswer, bad, key string)) {
	f := filepath.Join(scratch(), "bases.json")
	j, _ := json.Marshal(bases)
	must(os.WriteFile(f, j, 0644))
	ch := make(chan dCase)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := startWorker(f)
			n := 0
			for c := range ch {
				a, died := w.ask(c)
				bad, key := c.judge(a, died)
				if n++; bad != "" || n > 3000 {
					if died == "" {
						w.in.Close()
						w.cmd.Wait()
					}
					w, n = startWorker(f), 0
				}
				if bad != "" { // again, in a process of its own
					a, died = w.ask(c)
					bad, key = c.judge(a, died)
					if died == "" {
						w.in.Close()
						w.cmd.Wait()
					}
					w = startWorker(f)
				}
				mu.Lock()
				done(c, a, bad, key)
				mu.Unlock()
			}
			w.in.Close()
			w.cmd.Wait()
		}()
	}
	for _, c := range cs {
		ch <- c
	}
	close(ch)
	wg.Wait()
}

func caseHash(v interface{}, seed int) uint64 {
	h := fnv.New64a()
	j, _ := json.Marshal(v)
	h.Write(j)
	fmt.Fprint(h, seed)
	return h.Sum64()
}

func damageEngine(r *report, prop, tier string, seed int) {
	places, second, each := 20, 0, 2
	sizes := "{64, 512}"
	parseS, parseD := 5, 3
	if tier == "thorough" {
		places, second, each = 40, 2, 2
		sizes = "{64, 256, 1024, 2048}"
		parseS, parseD = 6, 4
	}
	parse := "SPECIFICATION Spec\nCONSTANT S = %d\nCONSTANT D = %d\nCONSTANT Trusting = %s\nINVARIANT InBounds\nINVARIANT Bounded\n%sCHECK_DEADLOCK FALSE\n"
	st := runTLC("Parse", fmt.Sprintf(parse, parseS, parseD, "FALSE", "PROPERTY Ends\n"), seed, nil, nil, func(string) {})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	mustViolate("Parse", fmt.Sprintf(parse, 5, 3, "TRUE", ""), "Bounded", seed)

	_, good, _ := r.allBases(seed)
	// which parts a base has, and how often
	occ, kind := make([]map[string]int, len(good)), make([]map[string]string, len(good))
	parallel(len(good), func(i int) {
		m, k := map[string]int{}, map[string]string{}
		buildHooked(cloneApk(good[i]), func(part string, b []byte) []byte {
			if m[part]++; m[part] == 1 {
				k[part] = fmt.Sprint(len(b) >> 4)
			}
			return b
		})
		occ[i], kind[i] = m, k
	})
	// by part, the bases by how the part is made there
	having := map[string]map[string][]int{}
	for i, m := range occ {
		for p := range m {
			if having[p] == nil {
				having[p] = map[string][]int{}
			}
			k := kind[i][p]
			having[p][k] = append(having[p][k], i)
		}
	}
	kinds := map[string][]string{}
	for p, m := range having {
		for k := range m {
			kinds[p] = append(kinds[p], k)
		}
		sort.Strings(kinds[p])
		r.note("kinds_of_"+p, len(kinds[p]))
	}
	var cs []dCase
	add := func(d []damage) {
		h := caseHash(d, seed)
		ks := kinds[d[0].Part]
		if len(ks) == 0 {
			fatal("no base has a part %q", d[0].Part)
		}
		n := each
		if n > len(ks) {
			n = len(ks)
		}
		for j := 0; j < n; j++ {
			hv := having[d[0].Part][ks[(int(h%uint64(len(ks)))+j*len(ks)/n)%len(ks)]]
			bi := hv[int((h>>8)%uint64(len(hv)))]
			cs = append(cs, dCase{Base: bi, Dmg: d, Occ: int(h>>20) % occ[bi][d[0].Part], Places: places, Seed: int64(h >> 33)})
		}
	}
	st = runTLC("Damage", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Places = %d\nCONSTANT Second = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", places, second), seed, nil, nil, func(s string) {
		var d []damage
		if err := json.Unmarshal([]byte(s), &d); err != nil {
			fatal("damage: %v: %.200s", err, s)
		}
		add(d)
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Slice(cs, func(i, j int) bool { return fmt.Sprint(cs[i].Dmg) < fmt.Sprint(cs[j].Dmg) })
	rand.New(rand.NewSource(int64(seed))).Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	for i := range cs {
		cs[i].ID = i
	}
	r.note("damaged_files", len(cs))
	var scale []dCase
	st = runTLC("Scale", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Sizes = %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", sizes), seed, nil, nil, func(s string) {
		var c dCase
		if err := json.Unmarshal([]byte(s), &c); err != nil {
			fatal("scale: %v: %.200s", err, s)
		}
		c.Seed = int64(seed)
		scale = append(scale, c)
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Slice(scale, func(i, j int) bool {
		if scale[i].Size != scale[j].Size {
			return scale[i].Size > scale[j].Size
		}
		return scale[i].Shape < scale[j].Shape
	})
	r.note("big_files", len(scale))

	verbose := os.Getenv("VERIF_VERBOSE") != ""
	nv := 0
	runCases(append(scale, cs...), good, func(c dCase, a dAnswer, bad, key string) {
		r.calls++
		if a.Changed {
			r.nontrivial++
		} else {
			r.notes["unchanged"]++
		}
		for k, v := range a.Out {
			r.notes["outcome_"+k] += v
		}
		if verbose && c.Shape != "" {
			fmt.Printf("%-24s %5d KiB: %9d bytes %6d ms %9d KiB allocated %v\n", c.Shape, c.Size, a.Size, a.Ms, a.Alloc>>10, a.Out)
		}
		if bad != "" {
			if nv++; nv <= 200 {
				v := violation{Prop: prop, Engine: "damage", What: fmt.Sprintf("%v: %s", c, firstLines(bad, 60)), Extra: c, Key: key}
				if c.Shape == "" {
					v.Apk = good[c.Base]
				}
				r.viol = append(r.viol, v)
			}
		} else if r.calls%9973 == 7 && len(r.samples) < 8 {
			r.samples = append(r.samples, c)
		}
	})
	r.rule = "well made APKs with one (thorough: two) parts changed as Damage.tla says, before signing where the part is signed; and Scale.tla's shapes; nontrivial: the change changed something"
	if verbose {
		fmt.Println(r.notes)
	}
}

func init() {
	engines["C24"] = damageEngine
	levels["C24"] = "exploration"
	replayers["damage"] = func(v violation) string {
		var c dCase
		j, _ := json.Marshal(v.Extra)
		must(json.Unmarshal(j, &c))
		bases := []json.RawMessage{v.Apk}
		c.Base = 0
		out := ""
		runCases([]dCase{c}, bases, func(_ dCase, _ dAnswer, bad, _ string) { out = firstLines(bad, 60) })
		return out
	}
}

package main

// Random abstract APKs: several edits at once, of parts taken from everywhere, recorded with what the
// implementation says about them and then checked against the specification (spec/Trace.tla).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
)

var algToks = []string{"pss256", "pss512", "rsa256", "rsa512", "ec256", "ec512", "dsa256", "vrsa", "vec", "vdsa", "unkX", "unkY", "unkZ"}
var keyToks = []string{"rsaA", "rsaB", "rsaC", "ecA", "ecB", "ecC", "dsaA", "dsaB"}
var certToks = []string{"rsaA", "rsaB", "rsaC", "ecA", "ecB", "ecC", "dsaB", "ecA2", "fakeRA", "twinR", "leafRA", "expR", "junk", "edA"}
var hashToks = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "md2", "unk"}
var thisOther = []string{"this", "other"}
var badToks = []string{"none", "none", "nul", "colon", "name", "longname", "emptyname", "nosep", "unnamed", "dupsec"}
var fileToks = []string{"classes.dex", "res/x.txt", "assets/new.bin", "assets/moved.bin", "META-INF/note.txt", "META-INF/services/x", "META-INF/sub/y", "META-INFO/x", "meta-inf/x", "res/META-INF/x", "BundleConfig.pb", "assets/~uni~.txt"}
var xaToks = []string{"2", "3", " 2 ", "\t2", "02", "+2", " 3 ", "1", "4", "", "x", "22", "-2", "2.0", "31", "23", "32", "0x2", "0"}

// strToks: the words a field may hold.
var strToks = map[string][]string{
	"Zip.Prefix":  {"none", "dex", "dex2", "nodex", "dexlate", "junk"},
	"Zip.Comment": {"none", "text", "magic", "max", "1", "4", "21", "22", "255", "256", "65534", "fake"},
	"Zip.Eocd":    {"ok", "zip64", "cdgap", "cdpast", "cdsize", "comlen", "trail", "nomagic"},
	"Zip.Late":    {"none", "none", "none", "classes.dex", "AndroidManifest.xml", "res/x.txt/", "./res/x.txt", "assets/late.bin"},
	"Sig.A":       algToks, "Sig.M": algToks, "Sig.K": keyToks, "Sig.O": thisOther,
	"Sig.F": {"ok", "ok", "short", "badlen", "garbage", "garbage2", "one", "none", "trunc", "trail", "zero", "neg", "lead", "three"},
	"Dig.A": algToks, "Dig.D": {"good", "bad", "badtail", "short", "empty"}, "Dig.F": {"ok", "ok", "short", "badlen", "trunc"},
	"Node.C": {"rsaA", "rsaB", "ecA", "ecB", "ecC", "ecA2", "leafRA", "junk"}, "Node.PA": algToks, "Node.NA": algToks, "Node.M": algToks,
	"Node.K": keyToks, "Node.O": thisOther, "Node.F": {"ok", "ok", "sdTrunc", "trunc", "cut0", "cut1", "cut2", "cut3", "cut4", "sdcut0", "sdcut1", "sdcut2", "tail", "sdtail"},
	"Attr.T":    {"strip", "rotmin", "dev", "unk", "short", "trunc"},
	"Signer.Fr": {"ok", "sdTrunc", "sigsTrunc", "pubTrunc", "digsTrunc", "certsTrunc", "attrsTrunc", "noattrs", "signerTrunc", "cut0", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "sdcut0", "sdcut1", "sdcut2", "sdcut3", "sdcut4"}, "Signer.Pub": {"rsaA", "rsaB", "ecA", "ecB", "ecC", "dsaB", "edA", "junk"}, "Signer.Certs": certToks,
	"Stamp.Fr": {"ok", "topTrunc", "certTrunc", "schemesTrunc", "attrTrunc", "asigTrunc", "attrListTrunc", "rest1", "rest4", "rest8"}, "Stamp.Cert": {"ecA", "ecC", "rsaB", "junk", "expR"},
	"FrostEntry.Hash": {"good", "bad", "short", "long"}, "FrostEntry.K": {"frost", "frost2"}, "FrostEntry.O": {"this", "other", "all"}, "FrostEntry.F": {"ok", "garbage", "trail", "missing"},
	"Frost.Fr": {"ok", "sizebig", "protobig", "metabig", "trunc", "longvar", "gap", "tail", "neg", "metaneg", "metazero", "metasmall", "sigsbig", "sigssmall", "sigsmore"},
	"Pair.Fr":  {"ok", "listTrunc", "empty", "tail"},
	"SB.St":    {"ok", "none"}, "SB.Dmg": {"none", "magic", "magiclo", "hdrsize", "hdrlow", "hdrhigh", "hdrneg", "ftrhigh", "ftrbig", "ftrsmall", "ftrover", "gap", "pairbig", "pairone", "pairneg", "pairshort", "pairzero", "pairhuge", "tail", "tail7", "tail8"},
	"Ds.A": {"md5", "sha", "sha1", "sha-256", "sha-384", "sha-512"}, "Ds.V": {"good", "good", "bad", "badtail", "short", "b64", "empty"},
	"Ent.N": append([]string{"AndroidManifest.xml", "assets/gone.bin", "META-INF/gone.txt"}, fileToks...), "Ent.Da": {"sha1", "sha", "sha-256", "sha-384", "sha-512", "md5", "foo"},
	"Mf.St": {"ok", "absent"}, "Mf.Bad": badToks, "SF.St": {"ok", "absent"}, "SF.Bad": badToks, "SF.Xa": xaToks, "SF.Da": {"sha1", "sha", "sha-256", "sha-384", "sha-512", "md5", "foo"},
	"SA.St": {"none", "ok", "rev"}, "SA.Ct": {"data", "data", "other", "absent", "dup", "two", "empty", "type"}, "SA.Md": {"good", "good", "bad", "absent", "dup", "two", "empty", "type", "short"},
	"Info.Da": hashToks, "Info.Dea": {"rsa", "ec", "dsa", "sha1rsa", "sha256rsa", "sha512rsa", "sha256ec", "sha512ec", "sha1dsa", "sha256dsa", "md5rsa", "unk"},
	"Info.K": {"rsaA", "rsaB", "ecA", "dsaA", "dsaB", "rsaL", "ecL"}, "Info.Cert": {"rsaA", "rsaB", "ecA", "fakeRA", "twinR", "crit", "leafRA", "leafEA", "negR"}, "Info.M": {"md5", "sha1", "sha224", "sha256", "sha384", "sha512"},
	"Info.O": thisOther, "Info.F": {"ok", "ok", "ok", "garbage", "none", "trail", "zero", "neg", "lead", "strip"},
	"PK.St": {"ok", "ok", "garbage", "empty", "trunc"}, "PK.Certs": {"rsaA", "rsaB", "fakeRA", "twinR", "ecA", "crit", "expR", "leafRA", "leafEA", "interEA", "interE2", "dsaA", "dsaB"},
	"V1Signer.Base": {"CERT", "OTHER", "EXTRA", "A1"}, "V1Signer.Ext": {"RSA", "DSA", "EC"},
	"Fmt.Eol": {"crlf", "lf", "cr"}, "Fmt.Case": {"canon", "lower", "upper"},
	"V1.St": {"ok", "ok", "none"}, "AM.St": {"ok", "ok", "absent", "bad", "text"},
	"Apk.Stf": {"absent", "junk", "big", "empty", "long", "short", "ecC", "ecA", "rsaB"},
	"FileE.N": fileToks, "FileE.C": {"a", "b", "new", "empty", "dexhdr"}, "FileE.Z": {"store", "deflate"},
}

var sdkToks = []int{-1, 0, 1, 18, 24, 27, 28, 29, 30, 32, 33, 34, maxInt - 1, maxInt}
var intToks = map[string][]int{
	"Signer.Omin": sdkToks, "Signer.Omax": sdkToks, "Signer.Smin": sdkToks, "Signer.Smax": sdkToks,
	"Attr.V": {-1, 0, 1, 2, 3, 4, 31, 32, 33, 34, 35, 1600000000, maxInt}, "Attr.Ver": {-1, 0, 1, 1, 2, 256}, "Node.Fl": {0, 7, 17, 23},
	"StampScheme.ID": {0, 1, 2, 3, 31}, "FrostEntry.Dis": {0, 0, 1, 200}, "FrostEntry.Key": {0, 0, 1, 2, 100000},
	"AM.Min": {-2, -1, 1, 14, 18, 21, 23, 24, 26, 28, 33}, "AM.Tgt": {-2, -1, 23, 27, 29, 30, 31, 33, 34}, "AM.Sbx": {-2, -1, 0, 1, 2, 3},
	"Fmt.Wrap": {0, 1, 2, 3, 7, 20, 60},
}

// site: something in an APK that can be changed.
type site struct {
	path  string
	v     reflect.Value
	field string // Type.Field for words and numbers
}

func sites(v reflect.Value, path, field string, out *[]site) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			sites(v.Elem(), path, field, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			sites(v.Field(i), path+"."+n, v.Type().Name()+"."+n, out)
		}
	case reflect.Slice:
		*out = append(*out, site{path, v, field})
		for i := 0; i < v.Len(); i++ {
			sites(v.Index(i), path+"[]", field, out)
		}
	case reflect.String, reflect.Int, reflect.Bool:
		*out = append(*out, site{path, v, field})
	}
}

func deepCopy(v reflect.Value) reflect.Value {
	j, err := json.Marshal(v.Interface())
	if err != nil {
		panic(err)
	}
	n := reflect.New(v.Type())
	if err := json.Unmarshal(j, n.Interface()); err != nil {
		panic(err)
	}
	return n.Elem()
}

func cloneApk(j json.RawMessage) *Apk {
	var a Apk
	if err := json.Unmarshal(j, &a); err != nil {
		fatal("%v", err)
	}
	return &a
}

// facets: the parts of an APK a property is about.
var facets = map[string]string{
	"C01": `^\.(Sb\.Pairs\[\]\.Signers\[\]\.(Digs|Sigs)|Zip\.(Align|Comment))`,
	"C02": `^\.Sb\.Pairs\[\]\.Signers`,
	"C03": `^\.Sb\.(Pairs|St)`,
	"C04": `^\.(Sb\.Pairs|Sb\.St|Sb\.Dmg|V1|Am\.Min|Files)`,
	"C05": `^\.(Sb\.Pairs$|Sb\.St|Sb\.Dmg|V1\.Signers\[\]\.Sf\.(Xa|Hasxa|Ver)|V1\.Signers$|V1\.Signers\[\]\.Pk\.Infos\[\]\.O)`,
	"C06": `^\.Sb\.Pairs($|\[\]\.Signers$|\[\]\.Signers\[\]\.(Attrs|Omin|Smin|Sigs\[\]\.O))`,
	"C07": `^\.(Sb\.Pairs|Am\.Min|V1\.St)`,
	"C08": `^\.Sb\.Pairs\[\]\.Signers($|\[\]\.(Omin|Omax|Smin|Smax|Trail))`,
	"C09": `^\.Sb\.Pairs\[\]\.Signers($|\[\]\.(Attrs|Certs))`,
	"C10": `^\.Sb\.Pairs`,
	"C11": `^\.(Files|Am\.St|V1\.Mf\.Ents|V1\.Signers\[\]\.Sf\.Ents|V1\.Signers$)`,
	"C12": `^\.V1\.(Signers|Mf\.Ents\[\]\.Ds)`,
	"C13": `^\.V1\.(Mf\.Ents|Signers\[\]\.Sf\.(Whole|Mainds|Da|Ents|Tool))`,
	"C14": `^\.(Am|Sb\.Pairs$|Sb\.St|Sb\.Pairs\[\]\.Signers\[\]\.(Sigs|Digs)\[\]\.(O|D)|V1\.St)`,
	"C15": `^\.(Am|Sb\.Pairs$|Sb\.St|Sb\.Pairs\[\]\.Signers\[\]\.(Omin|Omax|Smin|Smax|Sigs\[\]\.O))`,
	"C16": `^\.(Zip\.Prefix|Sb|Am|V1|Files\[\]\.C)`,
	"C17": `^\.(Zip|Sb\.Dmg|Sb\.Pairs($|\[\]\.(Fr|Signers$)))`,
	"C18": `^\.Sb\.Pairs($|\[\]\.Signers\[\]\.(Sigs|Digs|Attrs))`,
	"C19": `^\.(Stf|Sb\.Pairs($|\[\]\.(Stamp|Signers\[\]\.Digs\[\]\.D)))`,
	"C20": `^\.(Sb\.Pairs($|\[\]\.Frost)|Zip\.(Comment|Align))`,
	"C25": `^\.(Sb\.Pairs|Sb\.St|V1)`,
	"C29": `^\.V1\.(Fmt|Mf\.Bad|Signers\[\]\.Sf\.Bad|Mf\.Ents\[\]\.(Da|Ds))`,
}

type mutator struct {
	rng  *rand.Rand
	re   *regexp.Regexp
	pool map[reflect.Type][]reflect.Value
}

func (m *mutator) learn(a *Apk) {
	var ss []site
	sites(reflect.ValueOf(a), "", "", &ss)
	for _, s := range ss {
		if s.v.Kind() == reflect.Slice && s.v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < s.v.Len(); i++ {
				t := s.v.Type().Elem()
				if len(m.pool[t]) < 400 {
					m.pool[t] = append(m.pool[t], s.v.Index(i))
				} else if k := m.rng.Intn(4000); k < 400 {
					m.pool[t][k] = s.v.Index(i)
				}
			}
		}
	}
}

func (m *mutator) mutate(a *Apk) bool {
	var all, ss []site
	sites(reflect.ValueOf(a), "", "", &all)
	for _, s := range all {
		if m.re.MatchString(s.path) {
			ss = append(ss, s)
		}
	}
	if len(ss) == 0 {
		return false
	}
	s := ss[m.rng.Intn(len(ss))]
	switch s.v.Kind() {
	case reflect.Bool:
		s.v.SetBool(!s.v.Bool())
	case reflect.Int:
		t := intToks[s.field]
		if len(t) == 0 {
			return false
		}
		if m.rng.Intn(4) == 0 { // align with a sibling number of the same field
			var same []site
			for _, x := range all {
				if x.field == s.field || strings.HasPrefix(s.field, "Signer.") && strings.HasPrefix(x.field, "Signer.") && x.v.Kind() == reflect.Int {
					same = append(same, x)
				}
			}
			s.v.SetInt(same[m.rng.Intn(len(same))].v.Int())
			return true
		}
		s.v.SetInt(int64(t[m.rng.Intn(len(t))]))
	case reflect.String:
		t := strToks[s.field]
		if s.field == "Attr.T" && (s.v.String() == "lin" || s.v.String() == "slin") {
			return false
		}
		if len(t) == 0 {
			return false
		}
		s.v.SetString(t[m.rng.Intn(len(t))])
	case reflect.Slice:
		n := s.v.Len()
		mk := func() (reflect.Value, bool) {
			et := s.v.Type().Elem()
			if et.Kind() == reflect.Struct {
				p := m.pool[et]
				if len(p) == 0 {
					return reflect.Value{}, false
				}
				return deepCopy(p[m.rng.Intn(len(p))]), true
			}
			t := strToks[s.field]
			if len(t) == 0 {
				return reflect.Value{}, false
			}
			return reflect.ValueOf(t[m.rng.Intn(len(t))]), true
		}
		setTo := func(xs []reflect.Value) {
			nv := reflect.MakeSlice(s.v.Type(), 0, len(xs))
			for _, x := range xs {
				nv = reflect.Append(nv, x)
			}
			s.v.Set(nv)
		}
		var xs []reflect.Value
		for i := 0; i < n; i++ {
			xs = append(xs, s.v.Index(i))
		}
		switch m.rng.Intn(6) {
		case 0: // drop
			if n == 0 {
				return false
			}
			i := m.rng.Intn(n)
			setTo(append(append([]reflect.Value{}, xs[:i]...), xs[i+1:]...))
		case 1: // duplicate, anywhere
			if n == 0 {
				return false
			}
			c := deepCopy(xs[m.rng.Intn(n)])
			i := m.rng.Intn(n + 1)
			setTo(append(append(append([]reflect.Value{}, xs[:i]...), c), xs[i:]...))
		case 2: // swap two
			if n < 2 {
				return false
			}
			i, j := m.rng.Intn(n), m.rng.Intn(n)
			reflect.Swapper(s.v.Interface())(i, j)
		case 3, 4: // something from elsewhere
			c, ok := mk()
			if !ok {
				return false
			}
			i := m.rng.Intn(n + 1)
			setTo(append(append(append([]reflect.Value{}, xs[:i]...), c), xs[i:]...))
		case 5: // replace
			c, ok := mk()
			if !ok || n == 0 {
				return false
			}
			s.v.Index(m.rng.Intn(n)).Set(c)
		}
	}
	return true
}

func uniq(xs []string) bool {
	m := map[string]bool{}
	for _, x := range xs {
		if m[x] {
			return false
		}
		m[x] = true
	}
	return true
}

// admissible: what the abstraction can express without saying more than it means.
func admissible(a *Apk, call string) bool {
	entNames := func(es []Ent) (out []string) {
		for _, e := range es {
			out = append(out, e.N)
		}
		return
	}
	dsOK := func(ds []Ds) bool {
		var n []string
		for _, d := range ds {
			n = append(n, d.A)
		}
		return uniq(n)
	}
	entsOK := func(es []Ent) bool {
		if !uniq(entNames(es)) {
			return false
		}
		for _, e := range es {
			if !dsOK(e.Ds) {
				return false
			}
		}
		return true
	}
	var fn []string
	for _, f := range a.Files {
		fn = append(fn, f.N)
	}
	if !uniq(fn) || !entsOK(a.V1.Mf.Ents) {
		return false
	}
	if strings.HasPrefix(a.Sb.Dmg, "pair") && len(a.Sb.Pairs) == 0 {
		return false
	}
	if len(a.Files) > 12 || len(a.Sb.Pairs) > 12 || len(a.V1.Signers) > 12 {
		return false
	}
	sfBase := map[string]bool{}
	names := map[string]bool{}
	for _, s := range a.V1.Signers {
		if names[s.Base+"."+s.Ext] {
			return false
		}
		names[s.Base+"."+s.Ext] = true
		if sfBase[s.Base] && s.Sf.St == "ok" {
			return false
		}
		sfBase[s.Base] = true
		if !entsOK(s.Sf.Ents) || !dsOK(s.Sf.Mainds) || !dsOK(s.Sf.Whole) {
			return false
		}
		for _, c := range s.Pk.Certs {
			if c == "junk" {
				return false
			}
		}
	}
	if (a.Zip.Comment == "magic" || a.Zip.Comment == "fake" || a.Zip.Eocd != "ok") && call != "block" && a.V1.St != "none" {
		return false
	}
	for _, p := range a.Sb.Pairs {
		if len(p.Signers) > 12 {
			return false
		}
	}
	return true
}

type recorded struct {
	Apk json.RawMessage `json:"apk"`
	Obs O               `json:"obs"`
}

var randMin = []int{-1, 1, 8, 9, 14, 17, 18, 21, 23, 24, 26, 27, 28, 29, 30, 32, 33, 34}
var randMax = []int{8, 17, 18, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, maxInt, maxInt, maxInt}

type callSpec struct {
	call     string
	min, max int
}

// randomTraces records n random calls and checks them against the specification.
func (r *report) randomTraces(prop string, n, seed int, corpus, good []json.RawMessage, calls []callSpec) {
	if len(corpus) == 0 || len(good) == 0 {
		fatal("no corpus for %s", prop)
	}
	re := regexp.MustCompile(facets[prop])
	pool := map[reflect.Type][]reflect.Value{}
	learner := &mutator{rng: rand.New(rand.NewSource(int64(seed))), re: re, pool: pool}
	for i := 0; i < len(corpus); i += 1 + len(corpus)/600 {
		learner.learn(cloneApk(corpus[i]))
	}
	recs := make([]recorded, n)
	parallel(n, func(i int) {
		rng := rand.New(rand.NewSource(int64(seed)*1000003 + int64(i)))
		m := &mutator{rng: rng, re: re, pool: pool}
		for {
			a := cloneApk(corpus[rng.Intn(len(corpus))])
			if rng.Intn(4) != 0 {
				a = cloneApk(good[rng.Intn(len(good))])
			}
			c := calls[rng.Intn(len(calls))]
			if c.call != "extract" && rng.Intn(3) == 0 {
				c.min, c.max = randMin[rng.Intn(len(randMin))], randMax[rng.Intn(len(randMax))]
			}
			for k := 1 + rng.Intn(4)*rng.Intn(2); k > 0; {
				if m.mutate(a) {
					k--
				}
			}
			if !admissible(a, c.call) {
				continue
			}
			j, err := json.Marshal(a)
			if err != nil {
				fatal("%v", err)
			}
			o := observe(build(cloneApk(j)), c.call, c.min, c.max)
			o.norm()
			recs[i] = recorded{j, o}
			return
		}
	})
	r.checkTraces(prop, "random", seed, recs)
}

// checkTraces lets TLC check recorded calls.
func (r *report) checkTraces(prop, engine string, seed int, recs []recorded) {
	f := filepath.Join(scratch(), fmt.Sprintf("cases-%s-%d.ndjson", prop, seed))
	w, err := os.Create(f)
	if err != nil {
		fatal("%v", err)
	}
	bw := bufio.NewWriter(w)
	for _, x := range recs {
		x.Obs.Msg = ""
		j, err := json.Marshal(x)
		if err != nil {
			fatal("%v", err)
		}
		bw.Write(j)
		bw.WriteByte('\n')
	}
	bw.Flush()
	w.Close()
	defer os.Remove(f)
	cfg := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Prop = %q\nCONSTANT FrostKeyCount = %d\nINVARIANT TypeOK\nINVARIANT Holds\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", prop, frostKeys)
	seen := map[int]bool{}
	st := runTLC("Trace", cfg, seed, nil, []string{"VERIF_CASES=" + f}, func(s string) {
		var e struct {
			I    int      `json:"i"`
			OK   bool     `json:"ok"`
			Res  string   `json:"res"`
			Keep []string `json:"keep"`
			Out  O        `json:"out"`
		}
		if err := json.Unmarshal([]byte(s), &e); err != nil {
			fatal("TLC trace: %v: %.300s", err, s)
		}
		seen[e.I] = true
		x := recs[e.I-1]
		r.note(engine+"_"+x.Obs.Res, 1)
		if !e.OK {
			got := x.Obs
			r.add(violation{Prop: prop, Engine: engine, What: diffO(e.Keep, e.Out, got), Apk: x.Apk, Call: got.Call, Min: got.Min, Max: got.Max, Keep: e.Keep, Want: &e.Out, Got: &got})
		}
	})
	if len(seen) != len(recs) {
		fatal("TLC finished %d of %d recorded calls of %s", len(seen), len(recs), prop)
	}
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	r.calls += len(recs)
}

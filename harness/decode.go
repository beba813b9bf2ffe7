//go:build c30

package main

// C30: the lenient decoders against the strict ones (spec/Der.tla, spec/Cert.tla).

import (
	"bytes"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"time"

	lenient "github.com/avast/apkverifier/zzverif"
)

// The structures of the specification.
type (
	dA struct {
		A int64
		B []byte        `asn1:"optional,tag:0"`
		C int64         `asn1:"optional,default:5"`
		D asn1.RawValue `asn1:"optional,tag:1"`
	}
	dB struct {
		A asn1.ObjectIdentifier
		B asn1.RawValue `asn1:"optional"`
	}
	dC struct {
		A int64 `asn1:"optional,explicit,tag:0"`
		B *big.Int
		C []int64 `asn1:"optional"`
	}
	dD struct {
		R asn1.RawContent
		A asn1.ObjectIdentifier
		B bool `asn1:"optional"`
		C []byte
	}
	dE struct {
		A time.Time
		B string      `asn1:"optional"`
		C interface{} `asn1:"optional"`
	}
	dF struct {
		A []int64         `asn1:"set"`
		B asn1.BitString  `asn1:"optional,tag:1"`
		C asn1.Enumerated `asn1:"optional"`
	}
	dG struct {
		A []byte `asn1:"tag:4"`
		B int64
	}
	dH struct {
		A dG                      `asn1:"optional"`
		B asn1.RawValue           `asn1:"optional,explicit,tag:0"`
		C asn1.Flag               `asn1:"optional,explicit,tag:1"`
		D []asn1.ObjectIdentifier `asn1:"optional"`
	}
	dI struct {
		A []int64  `asn1:"optional,tag:0"`
		B dB       `asn1:"optional,tag:1"`
		C []string `asn1:"optional"`
	}
	dJ struct {
		A []byte    `asn1:"optional,application,tag:2"`
		B []byte    `asn1:"optional,private,tag:2"`
		C time.Time `asn1:"optional,tag:0"`
		D int32     `asn1:"optional"`
	}
	dK struct {
		A int32     `asn1:"optional,default:7"`
		B int64     `asn1:"optional,tag:0,default:9"`
		C time.Time `asn1:"optional"`
		D string    `asn1:"optional"`
	}
)

var dStructs = map[string]reflect.Type{}

var dKinds = map[string]reflect.Type{
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "big": reflect.TypeOf((*big.Int)(nil)), "enum": reflect.TypeOf(asn1.Enumerated(0)),
	"bool": reflect.TypeOf(false), "flag": reflect.TypeOf(asn1.Flag(false)), "bits": reflect.TypeOf(asn1.BitString{}), "oid": reflect.TypeOf(asn1.ObjectIdentifier{}),
	"str": reflect.TypeOf(""), "time": reflect.TypeOf(time.Time{}), "octets": reflect.TypeOf([]byte{}), "raw": reflect.TypeOf(asn1.RawValue{}),
	"any": reflect.TypeOf((*interface{})(nil)).Elem(),
}

func init() {
	for _, x := range []interface{}{dA{}, dB{}, dC{}, dD{}, dE{}, dF{}, dG{}, dH{}, dI{}, dJ{}, dK{}} {
		t := reflect.TypeOf(x)
		dStructs[t.Name()[1:]] = t
	}
}

type decShape struct {
	K, E, F string
	Opt     bool
	Def     []int
	Tag     int
	Expl    bool
	Set     bool
	Cls     string
}

func (s decShape) goType() reflect.Type {
	elem := func(k string) reflect.Type {
		if t, ok := dStructs[k]; ok {
			return t
		}
		return dKinds[k]
	}
	switch s.K {
	case "seqof":
		return reflect.SliceOf(elem(s.E))
	case "struct":
		return dStructs[s.F]
	}
	t := dKinds[s.K]
	if t == nil {
		fatal("der: kind %q", s.K)
	}
	return t
}

func (s decShape) params() string {
	var p []string
	if s.Opt {
		p = append(p, "optional")
	}
	if s.Tag >= 0 {
		p = append(p, fmt.Sprintf("tag:%d", s.Tag))
		if s.Cls == "app" {
			p = append(p, "application")
		} else if s.Cls == "priv" {
			p = append(p, "private")
		}
	}
	if s.Expl {
		p = append(p, "explicit")
	}
	if s.Set {
		p = append(p, "set")
	}
	return strings.Join(p, ",")
}

type decValue struct {
	K string
	B []int
	E []decValue
}

func (v decValue) bytes() []byte {
	b := make([]byte, len(v.B))
	for i, x := range v.B {
		b[i] = byte(x)
	}
	return b
}

func (v decValue) String() string {
	j, _ := json.Marshal(v)
	return string(j)
}

type decResult struct {
	Ok  bool
	V   decValue
	Off int
}

type decCase struct {
	Sh              decShape
	In              []int
	Strict, Lenient decResult
}

// dSame: does the decoded value say what the specification says?
func dSame(v decValue, x reflect.Value) bool {
	if x.Kind() == reflect.Interface {
		if v.K == "nil" {
			return x.IsNil()
		}
		if x.IsNil() {
			return false
		}
		x = x.Elem()
	}
	switch v.K {
	case "unspecified":
		return true
	case "nil":
		return x.IsZero()
	case "int":
		n := new(big.Int).SetBytes(v.bytes())
		if len(v.B) > 0 && v.B[0] >= 128 {
			n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(8*len(v.B))))
		}
		if b, ok := x.Interface().(*big.Int); ok {
			return b != nil && n.Cmp(b) == 0
		}
		return x.CanInt() && n.IsInt64() && n.Int64() == x.Int()
	case "bool":
		return x.Kind() == reflect.Bool && x.Bool() == (v.B[0] == 1)
	case "bits":
		b, ok := x.Interface().(asn1.BitString)
		return ok && b.BitLength == v.B[0] && bytes.Equal(b.Bytes, decValue{B: v.B[1:]}.bytes())
	case "oid":
		o, ok := x.Interface().(asn1.ObjectIdentifier)
		return ok && o.Equal(asn1.ObjectIdentifier(v.B))
	case "str":
		return x.Kind() == reflect.String && x.String() == string(v.bytes())
	case "octets":
		b, ok := x.Interface().([]byte)
		return ok && bytes.Equal(b, v.bytes())
	case "time":
		t, ok := x.Interface().(time.Time)
		if !ok {
			return false
		}
		_, off := t.Zone()
		return t.Equal(time.Date(v.B[0], time.Month(v.B[1]), v.B[2], v.B[3], v.B[4], v.B[5], v.B[6], time.FixedZone("", v.B[7]*60))) && off == v.B[7]*60 && t.Day() == v.B[2]
	case "raw":
		r, ok := x.Interface().(asn1.RawValue)
		n := v.B[3]
		b := decValue{B: v.B[4:]}.bytes()
		return ok && r.Class == v.B[0] && r.Tag == v.B[1] && r.IsCompound == (v.B[2] == 1) && bytes.Equal(r.Bytes, b[:n]) && bytes.Equal(r.FullBytes, b[n:])
	case "seq":
		if x.Kind() != reflect.Slice || x.Len() != len(v.E) {
			return false
		}
		for i := range v.E {
			if !dSame(v.E[i], x.Index(i)) {
				return false
			}
		}
		return true
	case "struct":
		if x.Kind() != reflect.Struct {
			return false
		}
		at := 0
		if r, ok := x.Field(0).Interface().(asn1.RawContent); ok {
			at = 1
			if !bytes.Equal(r, v.bytes()) {
				return false
			}
		}
		if x.NumField()-at != len(v.E) {
			fatal("der: %d fields for %s", x.NumField()-at, v)
		}
		for i := range v.E {
			if !dSame(v.E[i], x.Field(at+i)) {
				return false
			}
		}
		return true
	}
	fatal("der: value %q", v.K)
	return false
}

func dDecode(f func([]byte, interface{}, string) ([]byte, error), s decShape, b []byte) (x reflect.Value, off int, err error, bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprint("panic: ", p)
		}
	}()
	p := reflect.New(s.goType())
	in := append([]byte{}, b...)
	rest, err := f(in, p.Interface(), s.params())
	return p.Elem(), len(b) - len(rest), err, ""
}

func (r decResult) compare(who string, x reflect.Value, off int, err error, bad string) string {
	switch {
	case bad != "":
		return who + ": " + bad
	case r.Ok != (err == nil):
		return fmt.Sprintf("%s: %v, specified %v", who, err, r)
	case r.Ok && (off != r.Off || !dSame(r.V, x)):
		return fmt.Sprintf("%s: %#v up to %d, specified %v", who, x.Interface(), off, r)
	}
	return ""
}

// run: what is wrong with the library's decoder; what is wrong with the specification.
func (c *decCase) run() (bad, wrong string) {
	b := decValue{B: c.In}.bytes()
	x, off, err, p := dDecode(asn1.UnmarshalWithParams, c.Sh, b)
	wrong = c.Strict.compare("encoding/asn1", x, off, err, p)
	y, yoff, yerr, yp := dDecode(lenient.UnmarshalWithParams, c.Sh, b)
	bad = c.Lenient.compare("asn1andr", y, yoff, yerr, yp)
	if bad == "" && c.Lenient.V.K == "unspecified" {
		return
	}
	if bad == "" && err == nil && (yerr != nil || off != yoff || !reflect.DeepEqual(x.Interface(), y.Interface())) {
		bad = fmt.Sprintf("asn1andr: %#v, encoding/asn1: %#v", y.Interface(), x.Interface())
	}
	if bad == "" && err == nil && c.Sh.K != "any" && c.Sh.F != "F" && !c.Sh.Set { // sets are written in the order they have
		m, merr := asn1.MarshalWithParams(x.Interface(), c.Sh.params())
		n, nerr := lenient.MarshalWithParams(y.Interface(), c.Sh.params())
		if (merr == nil) != (nerr == nil) || !bytes.Equal(m, n) {
			bad = fmt.Sprintf("asn1andr writes %x (%v), encoding/asn1 %x (%v)", n, nerr, m, merr)
		}
	}
	if bad != "" {
		bad = fmt.Sprintf("%s from %s: %s", c.Sh.goType(), hex.EncodeToString(b), bad)
	}
	return
}

func derCfg(family string, n int, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Family = %q\nCONSTANT N = %d\nCONSTANT Mutant = %q\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n", family, n, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func derEngine(r *report, prop, tier string, seed int) {
	for _, m := range [][2]string{{"head", "long"}, {"str", "t61"}, {"time", "fraction"}, {"int", "anybool"}} {
		mustViolate("Der", derCfg(m[0], 2, m[1], false), "Agree", seed)
	}
	sizes := map[string]int{"int": 4, "bits": 4, "oid": 3, "str": 2, "time": 0, "head": 0, "seq": 2, "struct": 2}
	if tier == "thorough" {
		sizes = map[string]int{"int": 5, "bits": 5, "oid": 4, "str": 3, "time": 0, "head": 0, "seq": 3, "struct": 3}
	}
	for _, f := range []string{"int", "bits", "oid", "str", "time", "head", "seq", "struct"} {
		lines := make(chan string, 1000)
		var st tlcStats
		go func() {
			st = runTLC("Der", derCfg(f, sizes[f], "none", true), seed, nil, nil, func(s string) { lines <- s })
			close(lines)
		}()
		each := func(s string) {
			var c decCase
			if err := json.Unmarshal([]byte(s), &c); err != nil {
				fatal("der: %v: %.300s", err, s)
			}
			bad, wrong := c.run()
			if wrong != "" {
				fatal("der: the specification is wrong: %s: %s", s, wrong)
			}
			if bad != "" {
				r.add(violation{Prop: prop, Engine: "der", What: bad, Extra: c})
			} else if caseHash(s, seed)%5000 == 0 {
				r.sample(c)
			}
			switch {
			case c.Strict.Ok:
				r.note(f+"_strict", 1)
			case c.Lenient.Ok:
				r.note(f+"_lenient", 1)
			default:
				r.note(f+"_rejected", 1)
			}
			r.mu.Lock()
			r.calls += 2
			r.mu.Unlock()
		}
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range lines {
					each(s)
				}
			}()
		}
		wg.Wait()
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
	}
}

func init() {
	engines["C30"] = func(r *report, prop, tier string, seed int) {
		certEngine(r, prop, tier, seed)
		derEngine(r, prop, tier, seed)
	}
	replayers["der"] = func(v violation) string {
		var c decCase
		j, _ := json.Marshal(v.Extra)
		must(json.Unmarshal(j, &c))
		bad, _ := c.run()
		return bad
	}
}

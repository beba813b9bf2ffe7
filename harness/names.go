package main

// C12: which certificate a signature block means (spec/Names.tla).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/avast/apkverifier"
)

type nAv struct {
	T string   `json:"t"`
	V []string `json:"v"`
}

type nName [][]nAv

type nCert struct {
	ID  string `json:"id"`
	Iss nName  `json:"iss"`
	Sub nName  `json:"sub"`
	Ser int64  `json:"ser"`
}

type nCase struct {
	Bag   []nCert  `json:"bag"`
	Iss   nName    `json:"iss"`
	Ser   int64    `json:"ser"`
	Acc   bool     `json:"acc"`
	Chain []string `json:"chain"`
	Form  int      `json:"form"` // how the block spells what it says
}

type nPair struct {
	N1    nName   `json:"n1"`
	N2    nName   `json:"n2"`
	Same  bool    `json:"same"`
	Cases []nCase `json:"cases"`
}

var nOIDs = map[string][]int{"C": {2, 5, 4, 6}, "O": {2, 5, 4, 10}, "OU": {2, 5, 4, 11}, "CN": {2, 5, 4, 3}, "CN1": {2, 5, 4, 3, 1}, "E": {1, 2, 840, 113549, 1, 9, 1}, "DC": {0, 9, 2342, 19200300, 100, 1, 25}}

// der: form chooses between encodings of the texts
func (n nName) der(form int) []byte {
	var out []byte
	for _, r := range n {
		var avs []byte
		for _, a := range r {
			s := strings.Join(a.V, "")
			v := derUTF8(s)
			switch {
			case a.T == "E" || a.T == "DC":
				v = der(0x16, []byte(s))
			case form%2 == 1 && !strings.ContainsAny(s, "\"<>;#\\"):
				v = derPrintable(s)
			}
			avs = append(avs, derSeq(derOID(nOIDs[a.T]...), v)...)
		}
		out = append(out, derSet(avs)...)
	}
	return derSeq(out)
}

func (c nCert) der(form int) []byte {
	k := keys["ecB"]
	if c.ID == "real" {
		k = keys["ecA"]
	}
	tbs := derSeq(der(0xa0, derInt64(2)), derInt64(c.Ser), certSigAlg(k), c.Iss.der(form), derSeq(derUTC("150101000000Z"), derUTC("491231235959Z")), c.Sub.der(form), k.spki)
	return derSeq(tbs, certSigAlg(k), derBits([]byte{1, 2, 3}))
}

var nBase = func() *Apk {
	a := apkWith(nil, true)
	a.V1 = validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml"}, "rsaA", "sha256", "rsa", "sha256")
	return a
}

func (c nCase) run() string {
	ids := map[string]string{}
	var certs []byte
	for i, x := range c.Bag {
		d := x.der(i + c.Form)
		ids[string(d)] = x.ID
		certs = append(certs, d...)
	}
	var sf []byte
	b := buildHooked(nBase(), func(part string, p []byte) []byte {
		switch part {
		case "sf":
			sf = p
		case "p7":
			da, dea := derSeq(derOID(p7OID["sha256"]...), derNull()), derSeq(derOID(p7OID["sha256ec"]...), derNull())
			info := derSeq(derInt64(1), derSeq(c.Iss.der(c.Form/2), derInt64(c.Ser)), da, dea, derOctet(signRaw(keys["ecA"], v1Hash["sha256"], false, sf)))
			return derSeq(derOID(oidP7Signed...), der(0xa0, derSeq(derInt64(1), der(0x31, da), derSeq(derOID(oidP7Data...)), der(0xa0, certs), der(0x31, info))))
		}
		return p
	})
	var got []string
	var err error
	g := guard(callLimit, func() {
		var r apkverifier.Result
		max := 23
		if c.Form%3 == 1 {
			max = maxInt
		}
		r, err = apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(b.data), nil, 21, int32(max))
		if err == nil && len(r.SignerCerts) != 1 {
			err = fmt.Errorf("%d chains", len(r.SignerCerts))
			return
		}
		if err == nil {
			for _, x := range r.SignerCerts[0] {
				got = append(got, ids[string(x.Raw)])
			}
		}
	})
	if g.panicked != "" || g.hang {
		return "panic or hang: " + firstLine(g.panicked)
	}
	switch {
	case c.Acc && err != nil:
		return fmt.Sprintf("specified the chain %v, rejected: %v", c.Chain, err)
	case !c.Acc && err == nil:
		return fmt.Sprintf("specified rejected, accepted with the chain %v", got)
	case c.Acc && strings.Join(got, " ") != strings.Join(c.Chain, " "):
		return fmt.Sprintf("specified the chain %v, got %v", c.Chain, got)
	}
	return ""
}

func namesEngine(r *report, prop, tier string, seed int) {
	cfg := "SPECIFICATION Spec\nCONSTANT Len1 = %d\nCONSTANT Mutant = %q\nINVARIANT Faithful\n"
	emit := "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
	for _, m := range []string{"dropspecial", "noescape", "knownonly"} {
		mustViolate("Names", fmt.Sprintf(cfg, 1, m)+"CHECK_DEADLOCK FALSE\n", "Faithful", seed)
	}
	var lines []string
	st := runTLC("Names", fmt.Sprintf(cfg, 2, "none")+emit, seed, nil, nil, func(s string) { lines = append(lines, s) })
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Strings(lines)
	parallel(len(lines), func(i int) {
		if h := caseHash(lines[i], seed); tier != "thorough" && h%4 != 0 {
			return
		}
		var p nPair
		if err := json.Unmarshal([]byte(lines[i]), &p); err != nil {
			fatal("names: %v: %.200s", err, lines[i])
		}
		n := 0
		for k, c := range p.Cases {
			if h := caseHash(lines[i], seed+k); tier != "thorough" && h%3 != 0 {
				continue
			}
			c.Form = i%7 + k
			n++
			if d := c.run(); d != "" {
				r.add(violation{Prop: prop, Engine: "names", What: d, Extra: c})
			} else if n == 1 && i%(len(lines)/3+1) < 4 {
				r.sample(c)
			}
		}
		r.note("names_cases", n)
		r.mu.Lock()
		r.calls += n
		r.mu.Unlock()
	})
}

func init() {
	engines["C12"] = namesEngine
	replayers["names"] = func(v violation) string {
		var c nCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		return c.run()
	}
}

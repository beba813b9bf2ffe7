package main

// C26: choosing and describing the best certificate (spec/Pick.tla).

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/avast/apkverifier"
)

type pCert struct {
	Alg  int `json:"alg"`
	From int `json:"from"`
	To   int `json:"to"`
}

type pAtv struct {
	T string `json:"t"`
	V string `json:"v"`
}

type pCase struct {
	Kind  string  `json:"kind"`
	Certs []pCert `json:"certs"`
	Best  []pCert `json:"best"`
	Name  []pAtv  `json:"name"`
	Str   string  `json:"str"`
	Seed  int64   `json:"seed"`
}

var (
	sigAlgOID = map[int][]byte{ // by x509.SignatureAlgorithm, except 0: unknown
		0:  derSeq(derOID(1, 3, 6, 1, 4, 1, 99999, 77)),
		3:  derSeq(derOID(1, 2, 840, 113549, 1, 1, 5), derNull()),
		4:  derSeq(derOID(1, 2, 840, 113549, 1, 1, 11), derNull()),
		6:  derSeq(derOID(1, 2, 840, 113549, 1, 1, 13), derNull()),
		7:  derSeq(derOID(1, 2, 840, 10040, 4, 3)),
		10: derSeq(derOID(1, 2, 840, 10045, 4, 3, 2)),
		16: derSeq(derOID(1, 3, 101, 112)),
	}
	sigAlgName = map[int]string{0: "0", 3: "SHA1-RSA", 4: "SHA256-RSA", 6: "SHA512-RSA", 7: "DSA-SHA1", 10: "ECDSA-SHA256", 16: "Ed25519"}
	nameOIDs   = map[string][]int{"C": {2, 5, 4, 6}, "ST": {2, 5, 4, 8}, "L": {2, 5, 4, 7}, "O": {2, 5, 4, 10}, "OU": {2, 5, 4, 11}, "CN": {2, 5, 4, 3}, "SERIALNUMBER": {2, 5, 4, 5}, "DC": {0, 9, 2342, 19200300, 100, 1, 25}}
)

// pickTime: -3..3 around now.
func pickTime(now time.Time, k int) time.Time {
	d := map[int]time.Duration{-3: -900 * 24 * time.Hour, -2: -300 * 24 * time.Hour, -1: -2 * time.Hour, 1: 2 * time.Hour, 2: 300 * 24 * time.Hour, 3: 900 * 24 * time.Hour}[k]
	return now.Add(d).UTC().Truncate(time.Second)
}

func pickName(atvs []pAtv) []byte {
	var rdns []byte
	for _, a := range atvs {
		rdns = append(rdns, derSet(derSeq(derOID(nameOIDs[a.T]...), derUTF8(a.V)))...)
	}
	return der(0x30, rdns)
}

func pickCert(alg int, from, to time.Time, serial *big.Int, subject, issuer []pAtv) *x509.Certificate {
	tm := func(t time.Time) []byte { return derUTC(t.Format("060102150405Z")) }
	tbs := derSeq(der(0xa0, derInt64(2)), derInt(serial), sigAlgOID[alg], pickName(issuer), derSeq(tm(from), tm(to)), pickName(subject), keys["ecA"].spki)
	raw := derSeq(tbs, sigAlgOID[alg], derBits([]byte{1, 2, 3}))
	c, err := x509.ParseCertificate(raw)
	if err != nil {
		fatal("certificate of the model: %v", err)
	}
	return c
}

func describeDiff(ci *apkverifier.CertInfo, c *x509.Certificate, alg int, from, to time.Time, subject, issuer string, serial *big.Int) string {
	m, s1, s2 := md5.Sum(c.Raw), sha1.Sum(c.Raw), sha256.Sum256(c.Raw)
	sha := hex.EncodeToString(s1[:])
	var d []string
	eq := func(what, want, got string) {
		if want != got {
			d = append(d, fmt.Sprintf("%s: specified %q, got %q", what, want, got))
		}
	}
	eq("md5", hex.EncodeToString(m[:]), ci.Md5)
	eq("sha1", sha, ci.Sha1)
	eq("sha256", hex.EncodeToString(s2[:]), ci.Sha256)
	eq("from", from.Format(time.RFC3339), ci.ValidFrom.UTC().Format(time.RFC3339))
	eq("to", to.Format(time.RFC3339), ci.ValidTo.UTC().Format(time.RFC3339))
	eq("subject", subject, ci.Subject)
	eq("issuer", issuer, ci.Issuer)
	eq("algorithm", sigAlgName[alg], ci.SignatureAlgorithm)
	eq("serial", serial.String(), ci.SerialNumber.String())
	for _, part := range []string{sha, ci.ValidFrom.Format(time.RFC3339), ci.ValidTo.Format(time.RFC3339), subject, issuer} {
		if !strings.Contains(ci.String(), part) {
			d = append(d, fmt.Sprintf("String() %q lacks %q", ci.String(), part))
		}
	}
	return strings.Join(d, "; ")
}

func (c pCase) run(r *rand.Rand) (string, int) {
	now := time.Now()
	if c.Kind == "name" {
		other := []pAtv{{"CN", "other"}}
		calls := 0
		for i, pr := range [][2][]pAtv{{c.Name, other}, {other, c.Name}, {c.Name, c.Name}} {
			str := func(n []pAtv) string {
				if len(n) == 1 && n[0] == other[0] {
					return "CN=other"
				}
				return c.Str
			}
			serial := []*big.Int{big.NewInt(1), new(big.Int).Lsh(big.NewInt(0x7f), 152), new(big.Int).Lsh(big.NewInt(5), 63)}[i]
			algs := []int{0, 3, 4, 6, 7, 10, 16}
			alg := algs[r.Intn(len(algs))]
			from, to := pickTime(now, -2), pickTime(now, 3)
			cert := pickCert(alg, from, to, serial, pr[0], pr[1])
			ci, got := apkverifier.PickBestApkCert([][]*x509.Certificate{{cert}})
			calls++
			if got != cert || ci == nil {
				return "not the only certificate picked", calls
			}
			if d := describeDiff(ci, cert, alg, from, to, str(pr[0]), str(pr[1]), serial); d != "" {
				return d, calls
			}
			if d := describeDiff(apkverifier.NewCertInfo(cert), cert, alg, from, to, str(pr[0]), str(pr[1]), serial); d != "" {
				return "NewCertInfo: " + d, calls
			}
		}
		return "", calls
	}
	name := []pAtv{{"CN", "c"}}
	tail := pickCert(16, pickTime(now, -1), pickTime(now, 3), big.NewInt(999), name, name)
	chains := make([][]*x509.Certificate, len(c.Certs))
	spec := map[*x509.Certificate]pCert{}
	for i, p := range c.Certs {
		cert := pickCert(p.Alg, pickTime(now, p.From), pickTime(now, p.To), big.NewInt(int64(100+r.Intn(100000))), name, name)
		spec[cert] = p
		chains[i] = []*x509.Certificate{cert}
		if r.Intn(2) == 0 {
			chains[i] = append(chains[i], tail)
		}
	}
	var perms [][]int
	if len(chains) <= 4 {
		perms = permutations(len(chains))
	} else {
		for k := 0; k < 12; k++ {
			perms = append(perms, r.Perm(len(chains)))
		}
	}
	for k, pm := range perms {
		in := make([][]*x509.Certificate, 0, len(pm)+1)
		for _, i := range pm {
			in = append(in, chains[i])
		}
		if len(in) > 0 && k%3 == 1 { // the same chain twice
			in = append(in, in[r.Intn(len(in))])
		}
		ci, got := apkverifier.PickBestApkCert(in)
		if len(c.Best) == 0 {
			if ci != nil || got != nil {
				return "a certificate picked out of none", k + 1
			}
			continue
		}
		if got == nil || ci == nil {
			return "no certificate picked", k + 1
		}
		if spec[got] != c.Best[0] {
			return fmt.Sprintf("of %v in the order %v specified %v, picked %v", c.Certs, pm, c.Best[0], spec[got]), k + 1
		}
		p := spec[got]
		if d := describeDiff(ci, got, p.Alg, pickTime(now, p.From), pickTime(now, p.To), "CN=c", "CN=c", got.SerialNumber); d != "" {
			return d, k + 1
		}
	}
	return "", len(perms)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// ties: full ties are decided somehow, but always in the same way.
func pickTies(r *report, prop string, rng *rand.Rand, n int) {
	now := time.Now()
	name := []pAtv{{"CN", "c"}}
	for k := 0; k < n; k++ {
		var cs [][]*x509.Certificate
		m := 2 + rng.Intn(3)
		if k%5 == 0 {
			m = 14
		}
		for i := 0; i < m; i++ {
			a := []int{4, 10}[rng.Intn(2)]
			cs = append(cs, []*x509.Certificate{pickCert(a, pickTime(now, -1-rng.Intn(2)), pickTime(now, 1), big.NewInt(int64(1+rng.Intn(60000))), name, name)})
		}
		first := ""
		for _, pm := range [][]int{rng.Perm(m), rng.Perm(m), rng.Perm(m), rng.Perm(m)} {
			var in [][]*x509.Certificate
			for _, i := range pm {
				in = append(in, cs[i])
			}
			_, got := apkverifier.PickBestApkCert(in)
			r.calls++
			if s := string(got.Raw); first == "" {
				first = s
			} else if s != first {
				r.add(violation{Prop: prop, Engine: "picktie", What: fmt.Sprintf("the pick among %d certificates depends on their order", m)})
				return
			}
		}
	}
}

func pickEngine(r *report, prop, tier string, seed int) {
	cfg := "SPECIFICATION Spec\nCONSTANT Algs = {0, 3, 4, 10}\nCONSTANT MaxPick = %d\nCONSTANT Big = %d\nCONSTANT NameLen = %d\nINVARIANT Holds\nINVARIANT Total\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
	if tier == "thorough" {
		cfg = fmt.Sprintf(cfg, 3, 3000, 4)
	} else {
		cfg = fmt.Sprintf(cfg, 2, 300, 3)
		cfg = strings.Replace(cfg, "Algs = {0, 3, 4, 10}", "Algs = {3, 4, 10}", 1)
	}
	var mu []pCase
	seen := map[string]bool{}
	st := runTLC("Pick", cfg, seed, nil, nil, func(s string) {
		var c pCase
		if err := json.Unmarshal([]byte(s), &c); err != nil {
			fatal("pick case: %v: %.200s", err, s)
		}
		if !seen[s] {
			seen[s] = true
			mu = append(mu, c)
		}
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	sort.Slice(mu, func(i, j int) bool { return fmt.Sprint(mu[i]) < fmt.Sprint(mu[j]) })
	parallel(len(mu), func(i int) {
		c := mu[i]
		c.Seed = int64(seed)*1000003 + int64(i)
		d, n := c.run(rand.New(rand.NewSource(c.Seed)))
		r.mu.Lock()
		defer r.mu.Unlock()
		r.calls += n
		r.notes["case_"+c.Kind]++
		if d != "" {
			r.viol = append(r.viol, violation{Prop: prop, Engine: "pick", What: d, Extra: c})
		} else if i%(len(mu)/6+1) == 0 {
			r.samples = append(r.samples, c)
		}
	})
	pickTies(r, prop, rand.New(rand.NewSource(int64(seed))), 200)
}

func init() {
	engines["C26"] = pickEngine
	replayers["pick"] = func(v violation) string {
		var c pCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		d, _ := c.run(rand.New(rand.NewSource(c.Seed)))
		return d
	}
	replayers["picktie"] = func(v violation) string {
		r := newReport()
		pickTies(r, "C26", rand.New(rand.NewSource(1)), 1000)
		if len(r.viol) > 0 {
			return r.viol[0].What
		}
		return ""
	}
}

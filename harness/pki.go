package main

// Keys and certificates.  The private keys are test keys, generated once and committed in pki.json;
// the certificates are built by our own DER builder (the standard library cannot issue DSA ones).

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"sort"
	"sync"
)

//go:embed pki.json
var pkiJSON []byte

type pkiFile struct {
	RSA   map[string]string   `json:"rsa"` // pkcs1
	EC    map[string]string   `json:"ec"`  // sec1
	DSA   map[string][]string `json:"dsa"` // p q g y x (base 16)
	ED    map[string]string   `json:"ed"`
	Certs map[string]string   `json:"certs"`
}

type keyInfo struct {
	name string
	typ  string // rsa ec dsa ed
	rsa  *rsa.PrivateKey
	ec   *ecdsa.PrivateKey
	dsa  *dsa.PrivateKey
	ed   ed25519.PrivateKey
	spki []byte
}

type certSpec struct {
	name, key, subj, iss string
	serial               int64
	issKey               string
	crit                 bool
	from, to             string // UTCTime; default a wide window
}

// Must agree with the tables in spec/Base.tla.
var certSpecs = []certSpec{
	{name: "rsaA", key: "rsaA", subj: "rsaA", iss: "rsaA", serial: 1001, issKey: "rsaA"},
	{name: "rsaB", key: "rsaB", subj: "rsaB", iss: "rsaB", serial: 1002, issKey: "rsaB"},
	{name: "rsaC", key: "rsaC", subj: "rsaC", iss: "rsaC", serial: 1003, issKey: "rsaC"},
	{name: "ecA", key: "ecA", subj: "ecA", iss: "ecA", serial: 2001, issKey: "ecA"},
	{name: "ecB", key: "ecB", subj: "ecB", iss: "ecB", serial: 2002, issKey: "ecB"},
	{name: "ecC", key: "ecC", subj: "ecC", iss: "ecC", serial: 2003, issKey: "ecC"},
	{name: "ecD", key: "ecD", subj: "ecD", iss: "ecD", serial: 2004, issKey: "ecD"},
	{name: "ecE", key: "ecE", subj: "ecE", iss: "ecE", serial: 2005, issKey: "ecE"},
	{name: "dsaA", key: "dsaA", subj: "dsaA", iss: "dsaA", serial: 3001, issKey: "dsaA"},
	{name: "dsaB", key: "dsaB", subj: "dsaB", iss: "dsaB", serial: 3002, issKey: "dsaB"},
	{name: "edA", key: "edA", subj: "edA", iss: "edA", serial: 4001, issKey: "edA"},
	// same key and name as ecA, another certificate
	{name: "ecA2", key: "ecA", subj: "ecA", iss: "ecA", serial: 2011, issKey: "ecA"},
	// same issuer and serial number as rsaA, another key
	{name: "fakeRA", key: "rsaB", subj: "rsaA", iss: "rsaA", serial: 1001, issKey: "rsaB"},
	// same serial number as rsaA, another issuer
	{name: "twinR", key: "rsaB", subj: "twinR", iss: "twinR", serial: 1001, issKey: "rsaB"},
	// chains
	{name: "leafRA", key: "rsaL", subj: "leafRA", iss: "rsaA", serial: 5001, issKey: "rsaA"},
	{name: "leafEA", key: "ecL", subj: "leafEA", iss: "interEA", serial: 5002, issKey: "ecI"},
	{name: "interEA", key: "ecI", subj: "interEA", iss: "ecA", serial: 5003, issKey: "ecA"},
	// another certificate of the same issuer
	{name: "interE2", key: "ecI", subj: "interEA", iss: "ecA", serial: 5004, issKey: "ecA"},
	{name: "crit", key: "rsaC", subj: "crit", iss: "crit", serial: 6001, issKey: "rsaC", crit: true},
	// validity already over / not begun
	{name: "expR", key: "rsaB", subj: "expR", iss: "expR", serial: 6002, issKey: "rsaB", from: "100101000000Z", to: "110101000000Z"},
}

var (
	keys      = map[string]*keyInfo{}
	certDER   = map[string][]byte{}
	certName  = map[string]string{} // raw -> name
	certX509  = map[string]*x509.Certificate{}
	certByNm  = map[string]certSpec{}
	sigCache  = map[string][]byte{}
	sigCacheM sync.Mutex
)

var (
	oidRSA     = []int{1, 2, 840, 113549, 1, 1, 1}
	oidRSA256  = []int{1, 2, 840, 113549, 1, 1, 11}
	oidEC      = []int{1, 2, 840, 10045, 2, 1}
	oidEC256   = []int{1, 2, 840, 10045, 4, 3, 2}
	oidDSA     = []int{1, 2, 840, 10040, 4, 1}
	oidDSA1    = []int{1, 2, 840, 10040, 4, 3}
	oidDSA256  = []int{2, 16, 840, 1, 101, 3, 4, 3, 2}
	oidEd      = []int{1, 3, 101, 112}
	curveOIDs  = map[string][]int{"P-256": {1, 2, 840, 10045, 3, 1, 7}, "P-384": {1, 3, 132, 0, 34}, "P-521": {1, 3, 132, 0, 35}}
	oidCN      = []int{2, 5, 4, 3}
	oidO       = []int{2, 5, 4, 10}
	oidCountry = []int{2, 5, 4, 6}
)

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	must(err)
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func derName(cn string) []byte {
	atv := func(oid []int, v []byte) []byte { return derSet(derSeq(derOID(oid...), v)) }
	return derSeq(atv(oidCountry, derPrintable("CZ")), atv(oidO, derUTF8("Verif Org")), atv(oidCN, derUTF8(cn)))
}

func (k *keyInfo) makeSPKI() []byte {
	switch k.typ {
	case "rsa":
		pk := derSeq(derInt(k.rsa.N), derInt64(int64(k.rsa.E)))
		return derSeq(derSeq(derOID(oidRSA...), derNull()), derBits(pk))
	case "ec":
		c := k.ec.Curve.Params().Name
		pt := elliptic.Marshal(k.ec.Curve, k.ec.X, k.ec.Y)
		return derSeq(derSeq(derOID(oidEC...), derOID(curveOIDs[c]...)), derBits(pt))
	case "dsa":
		p := derSeq(derInt(k.dsa.P), derInt(k.dsa.Q), derInt(k.dsa.G))
		return derSeq(derSeq(derOID(oidDSA...), p), derBits(derInt(k.dsa.Y)))
	case "ed":
		return derSeq(derSeq(derOID(oidEd...)), derBits(k.ed.Public().(ed25519.PublicKey)))
	}
	panic(k.typ)
}

func certSigAlg(k *keyInfo) []byte {
	switch k.typ {
	case "rsa":
		return derSeq(derOID(oidRSA256...), derNull())
	case "ec":
		return derSeq(derOID(oidEC256...))
	case "dsa":
		return derSeq(derOID(oidDSA1...))
	case "ed":
		return derSeq(derOID(oidEd...))
	}
	panic(k.typ)
}

func signRaw(k *keyInfo, h crypto.Hash, pss bool, data []byte) []byte {
	id := fmt.Sprintf("%s|%d|%v|%x", k.name, h, pss, sha256.Sum256(data))
	sigCacheM.Lock()
	if s, ok := sigCache[id]; ok {
		sigCacheM.Unlock()
		return s
	}
	sigCacheM.Unlock()
	var s []byte
	var err error
	switch k.typ {
	case "rsa":
		hh := h.New()
		hh.Write(data)
		d := hh.Sum(nil)
		if pss {
			s, err = rsa.SignPSS(rand.Reader, k.rsa, h, d, &rsa.PSSOptions{SaltLength: h.Size()})
		} else {
			s, err = rsa.SignPKCS1v15(nil, k.rsa, h, d)
		}
	case "ec":
		hh := h.New()
		hh.Write(data)
		s, err = ecdsa.SignASN1(rand.Reader, k.ec, hh.Sum(nil))
	case "dsa":
		hh := h.New()
		hh.Write(data)
		d := hh.Sum(nil)
		if n := k.dsa.Q.BitLen() / 8; len(d) > n {
			d = d[:n]
		}
		var r, sv *big.Int
		r, sv, err = dsa.Sign(rand.Reader, k.dsa, d)
		if err == nil {
			s = derSeq(derInt(r), derInt(sv))
		}
	case "ed":
		s = ed25519.Sign(k.ed, data)
	}
	must(err)
	sigCacheM.Lock()
	defer sigCacheM.Unlock()
	if t, ok := sigCache[id]; ok { // another goroutine was faster: one signature per (key, data)
		return t
	}
	sigCache[id] = s
	return s
}

func certSignRaw(k *keyInfo, data []byte) []byte {
	if k.typ == "dsa" {
		return signRaw(k, crypto.SHA1, false, data)
	}
	return signRaw(k, crypto.SHA256, false, data)
}

func buildCert(cs certSpec) []byte {
	k, ik := keys[cs.key], keys[cs.issKey]
	from, to := cs.from, cs.to
	if from == "" {
		from, to = "150101000000Z", "491231235959Z"
	}
	parts := [][]byte{
		der(0xa0, derInt64(2)), derInt64(cs.serial), certSigAlg(ik), derName(cs.iss),
		derSeq(derUTC(from), derUTC(to)), derName(cs.subj), k.spki,
	}
	if cs.crit {
		ext := derSeq(derOID(1, 3, 6, 1, 4, 1, 99999, 1), derBool(true), derOctet(derUTF8("x")))
		parts = append(parts, der(0xa3, derSeq(ext)))
	}
	tbs := derSeq(parts...)
	return derSeq(tbs, certSigAlg(ik), derBits(certSignRaw(ik, tbs)))
}

func loadPKI() {
	var f pkiFile
	if len(pkiJSON) < 10 {
		return
	}
	must(json.Unmarshal(pkiJSON, &f))
	for n, v := range f.RSA {
		k, err := x509.ParsePKCS1PrivateKey(unb64(v))
		must(err)
		keys[n] = &keyInfo{name: n, typ: "rsa", rsa: k}
	}
	for n, v := range f.EC {
		k, err := x509.ParseECPrivateKey(unb64(v))
		must(err)
		keys[n] = &keyInfo{name: n, typ: "ec", ec: k}
	}
	for n, v := range f.ED {
		keys[n] = &keyInfo{name: n, typ: "ed", ed: ed25519.PrivateKey(unb64(v))}
	}
	for n, v := range f.DSA {
		k := &dsa.PrivateKey{}
		z := make([]*big.Int, 5)
		for i := range z {
			z[i], _ = new(big.Int).SetString(v[i], 16)
		}
		k.P, k.Q, k.G, k.Y, k.X = z[0], z[1], z[2], z[3], z[4]
		keys[n] = &keyInfo{name: n, typ: "dsa", dsa: k}
	}
	for _, k := range keys {
		k.spki = k.makeSPKI()
	}
	certByNm["negR"] = certSpec{name: "negR", iss: "rsaA", serial: -1001} // not a certificate, only a reference to one
	for _, cs := range certSpecs {
		certByNm[cs.name] = cs
		raw := unb64(f.Certs[cs.name])
		certDER[cs.name] = raw
		certName[string(raw)] = cs.name
		if c, err := x509.ParseCertificate(raw); err == nil {
			certX509[cs.name] = c
		} else {
			panic(fmt.Sprintf("cert %s: %v", cs.name, err))
		}
	}
}

// genPKI creates pki.json, or adds what is missing there (development only).
func genPKI(path string) {
	f := pkiFile{RSA: map[string]string{}, EC: map[string]string{}, DSA: map[string][]string{}, ED: map[string]string{}, Certs: map[string]string{}}
	if old, err := os.ReadFile(path); err == nil {
		must(json.Unmarshal(old, &f))
	}
	for _, n := range []string{"rsaA", "rsaB", "rsaC", "rsaL"} {
		if f.RSA[n] != "" {
			continue
		}
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		f.RSA[n] = b64(x509.MarshalPKCS1PrivateKey(k))
	}
	for n, c := range map[string]elliptic.Curve{"ecA": elliptic.P256(), "ecB": elliptic.P256(), "ecC": elliptic.P256(), "ecI": elliptic.P256(), "ecL": elliptic.P256(),
		"ecD": elliptic.P384(), "ecE": elliptic.P521(), "frost": elliptic.P256(), "frost2": elliptic.P256()} {
		if f.EC[n] != "" {
			continue
		}
		k, err := ecdsa.GenerateKey(c, rand.Reader)
		must(err)
		raw, err := x509.MarshalECPrivateKey(k)
		must(err)
		f.EC[n] = b64(raw)
	}
	if f.ED["edA"] == "" {
		_, ed, err := ed25519.GenerateKey(rand.Reader)
		must(err)
		f.ED["edA"] = b64(ed)
	}
	for n, sz := range map[string]dsa.ParameterSizes{"dsaA": dsa.L1024N160, "dsaB": dsa.L2048N256} {
		if f.DSA[n] != nil {
			continue
		}
		var k dsa.PrivateKey
		must(dsa.GenerateParameters(&k.Parameters, rand.Reader, sz))
		must(dsa.GenerateKey(&k, rand.Reader))
		f.DSA[n] = []string{k.P.Text(16), k.Q.Text(16), k.G.Text(16), k.Y.Text(16), k.X.Text(16)}
	}
	for n, v := range f.RSA {
		k, _ := x509.ParsePKCS1PrivateKey(unb64(v))
		keys[n] = &keyInfo{name: n, typ: "rsa", rsa: k}
	}
	for n, v := range f.EC {
		k, _ := x509.ParseECPrivateKey(unb64(v))
		keys[n] = &keyInfo{name: n, typ: "ec", ec: k}
	}
	for n, v := range f.ED {
		keys[n] = &keyInfo{name: n, typ: "ed", ed: ed25519.PrivateKey(unb64(v))}
	}
	for n, v := range f.DSA {
		k := &dsa.PrivateKey{}
		z := make([]*big.Int, 5)
		for i := range z {
			z[i], _ = new(big.Int).SetString(v[i], 16)
		}
		k.P, k.Q, k.G, k.Y, k.X = z[0], z[1], z[2], z[3], z[4]
		keys[n] = &keyInfo{name: n, typ: "dsa", dsa: k}
	}
	for _, k := range keys {
		k.spki = k.makeSPKI()
	}
	for _, cs := range certSpecs {
		if f.Certs[cs.name] == "" {
			f.Certs[cs.name] = b64(buildCert(cs))
		}
	}
	out, err := json.MarshalIndent(f, "", " ")
	must(err)
	must(os.WriteFile(path, out, 0644))
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = io.EOF
var _ = sha1.New
var _ = sha512.New

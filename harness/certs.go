//go:build c30

//go:debug x509negativeserial=0

package main

// C30: what certificates mean (spec/Cert.tla).

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
	lenient "github.com/avast/apkverifier/zzverif"
)

type ceAtv struct{ T, K, V string }
type ceExt struct {
	Id   string
	Crit bool
	X    []string
}
type ceCert struct {
	Version                              int
	Serial, Sig, Outer, Nb, Na, Key, Uid string
	Issuer, Subject                      [][]ceAtv
	Exts                                 []ceExt
}
type ceName struct {
	CN, SERIAL, C, L, ST, STREET, O, OU, POSTAL []string
	All                                         []ceAtv
}
type ceMeaning struct {
	Version                                                    int
	Serial, Sig, Nb, Na, Key, Path                             string
	Issuer, Subject                                            ceName
	Ku, Dns, Emails, Ips, Permitted, Excluded, Crl, Akid, Skid []string
	Eku, EkuOther, Pol, Ocsp, Issuing, Unhandled               []string
	BcValid, Ca, PathZero, NcCritical                          bool
}
type ceCase struct {
	C               ceCert
	Strict, Lenient bool
	Sm, Lm          ceMeaning
}

var (
	ceSerials = map[string]*big.Int{"0": big.NewInt(0), "1": big.NewInt(1), "127": big.NewInt(127), "128": big.NewInt(128), "255": big.NewInt(255), "256": big.NewInt(256), "negative": big.NewInt(-129),
		"big": new(big.Int).Lsh(big.NewInt(0x5a5a5a5a), 120), "big8": new(big.Int).Lsh(big.NewInt(0xff), 152)}
	ceText  = map[string]string{"A": "Alpha & Co", "B": "b", "e": "Žlutý kůň", "empty": "", "long": strings.Repeat("long", 60), "42": "42 07", "at": "a@b*&_"}
	ceAttr  = map[string][]int{"CN": {2, 5, 4, 3}, "SERIAL": {2, 5, 4, 5}, "C": {2, 5, 4, 6}, "L": {2, 5, 4, 7}, "ST": {2, 5, 4, 8}, "STREET": {2, 5, 4, 9}, "O": {2, 5, 4, 10}, "OU": {2, 5, 4, 11}, "TITLE": {2, 5, 4, 12}, "POSTAL": {2, 5, 4, 17}, "GIVEN": {2, 5, 4, 42}, "EMAIL": {1, 2, 840, 113549, 1, 9, 1}, "DC": {0, 9, 2342, 19200300, 100, 1, 25}}
	ceTimes = map[string]struct {
		tag  byte
		text string
		t    time.Time
	}{
		"utc1950":     {0x17, "500101000000Z", time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC)},
		"utc1999":     {0x17, "991231235959Z", time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)},
		"utc2019":     {0x17, "190203040506Z", time.Date(2019, 2, 3, 4, 5, 6, 0, time.UTC)},
		"utc2049":     {0x17, "491231235959Z", time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC)},
		"utcMinutes":  {0x17, "2002291213Z", time.Date(2020, 2, 29, 12, 13, 0, 0, time.UTC)},
		"utcZone":     {0x17, "190203040506+0130", time.Date(2019, 2, 3, 2, 35, 6, 0, time.UTC)},
		"gen0000":     {0x18, "00000101000000Z", time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC)},
		"gen1949":     {0x18, "19491231235959Z", time.Date(1949, 12, 31, 23, 59, 59, 0, time.UTC)},
		"gen2019":     {0x18, "20190203040506Z", time.Date(2019, 2, 3, 4, 5, 6, 0, time.UTC)},
		"gen2050":     {0x18, "20500101000000Z", time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)},
		"gen2051":     {0x18, "20511231235959Z", time.Date(2051, 12, 31, 23, 59, 59, 0, time.UTC)},
		"gen9999":     {0x18, "99991231235959Z", time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)},
		"genFraction": {0x18, "20510203040506.25Z", time.Date(2051, 2, 3, 4, 5, 6, 250000000, time.UTC)},
	}
	ceSigs = map[string]x509.SignatureAlgorithm{"unknown": 0, "rsamd5": x509.MD5WithRSA, "rsa1": x509.SHA1WithRSA, "rsa256": x509.SHA256WithRSA, "rsa384": x509.SHA384WithRSA, "rsa512": x509.SHA512WithRSA,
		"dsa1": x509.DSAWithSHA1, "dsa256": x509.DSAWithSHA256, "ec1": x509.ECDSAWithSHA1, "ec256": x509.ECDSAWithSHA256, "ec384": x509.ECDSAWithSHA384, "ec512": x509.ECDSAWithSHA512,
		"pss256": x509.SHA256WithRSAPSS, "pss384": x509.SHA384WithRSAPSS, "pss512": x509.SHA512WithRSAPSS}
	ceStrings = map[string]string{"d1": "a.example", "d2": "*.b.example", "e1": "who@a.example", "i4": "\x0a\x00\x00\x01", "i6": "\x20\x01\x0d\xb8\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01",
		"u1": "http://a.example/1.crl", "u2": "ldap://b.example/cn=x?y", "oc1": "http://ocsp.a.example", "oc2": "http://ocsp.b.example/2", "is1": "http://a.example/ca.cer", "k": "\x01\x02\x03\x80\xff"}
	ceEKUs = map[string][]int{"any": {2, 5, 29, 37, 0}, "server": {1, 3, 6, 1, 5, 5, 7, 3, 1}, "client": {1, 3, 6, 1, 5, 5, 7, 3, 2}, "code": {1, 3, 6, 1, 5, 5, 7, 3, 3}, "email": {1, 3, 6, 1, 5, 5, 7, 3, 4}, "ipsec1": {1, 3, 6, 1, 5, 5, 7, 3, 5},
		"ipsec2": {1, 3, 6, 1, 5, 5, 7, 3, 6}, "ipsec3": {1, 3, 6, 1, 5, 5, 7, 3, 7}, "time": {1, 3, 6, 1, 5, 5, 7, 3, 8}, "ocsp": {1, 3, 6, 1, 5, 5, 7, 3, 9}, "sgcms": {1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, "sgcns": {2, 16, 840, 1, 113730, 4, 1},
		"ms1": {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, "ms2": {1, 3, 6, 1, 4, 1, 311, 61, 1, 1}, "unk1": {1, 2, 3, 4}, "unk2": {1, 3, 6, 1, 5, 5, 7, 3, 17}}
	ceUsages = map[string]x509.ExtKeyUsage{"any": x509.ExtKeyUsageAny, "server": x509.ExtKeyUsageServerAuth, "client": x509.ExtKeyUsageClientAuth, "code": x509.ExtKeyUsageCodeSigning, "email": x509.ExtKeyUsageEmailProtection,
		"ipsec1": x509.ExtKeyUsageIPSECEndSystem, "ipsec2": x509.ExtKeyUsageIPSECTunnel, "ipsec3": x509.ExtKeyUsageIPSECUser, "time": x509.ExtKeyUsageTimeStamping, "ocsp": x509.ExtKeyUsageOCSPSigning,
		"sgcms": x509.ExtKeyUsageMicrosoftServerGatedCrypto, "sgcns": x509.ExtKeyUsageNetscapeServerGatedCrypto, "ms1": x509.ExtKeyUsageMicrosoftCommercialCodeSigning, "ms2": x509.ExtKeyUsageMicrosoftKernelCodeSigning}
	cePols = map[string][]int{"p1": {1, 2, 3, 4, 5}, "p2q": {2, 23, 140, 1, 2, 1}, "any": {2, 5, 29, 32, 0}}
	ceIds  = map[string][]int{"ku": {2, 5, 29, 15}, "bc": {2, 5, 29, 19}, "san": {2, 5, 29, 17}, "nc": {2, 5, 29, 30}, "cdp": {2, 5, 29, 31}, "akid": {2, 5, 29, 35}, "skid": {2, 5, 29, 14}, "eku": {2, 5, 29, 37}, "pol": {2, 5, 29, 32},
		"aia": {1, 3, 6, 1, 5, 5, 7, 1, 1}, "pm": {2, 5, 29, 33}, "pc": {2, 5, 29, 36}, "iap": {2, 5, 29, 54}, "ce9": {2, 5, 29, 9}, "unk": {1, 2, 3, 4}, "ns": {2, 16, 840, 1, 113730, 1, 1}, "unkEmpty": {1, 2, 3, 5}}
)

func ceAtvDER(a ceAtv) []byte {
	t, ok := ceText[a.V]
	if !ok {
		fatal("cert: text %q", a.V)
	}
	var v []byte
	switch a.K {
	case "utf8":
		v = der(0x0c, []byte(t))
	case "printable":
		v = der(0x13, []byte(t))
	case "ia5":
		v = der(0x16, []byte(t))
	case "numeric":
		v = der(0x12, []byte(t))
	case "general":
		v = der(0x1b, []byte(t))
	case "t61":
		var b []byte
		for _, c := range ceTextAs(a) {
			b = append(b, byte(c))
		}
		v = der(0x14, b)
	case "bmp":
		var b []byte
		for _, c := range t {
			b = append(b, byte(c>>8), byte(c))
		}
		v = der(0x1e, b)
	case "int":
		v = derInt64(77)
	case "oid":
		v = derOID(1, 2, 3)
	case "octets":
		v = derOctet([]byte{9})
	case "bits":
		v = derBits([]byte{0xa5})
	case "bool":
		v = derBool(true)
	case "utc":
		v = derUTC("190203040506Z")
	case "null":
		v = derNull()
	default:
		fatal("cert: kind %q", a.K)
	}
	return derSeq(derOID(ceAttr[a.T]...), v)
}

// ceTextAs: the text a name's attribute has; T.61 has no carons.
func ceTextAs(a ceAtv) string {
	if a.K == "t61" && a.V == "e" {
		return "žluté kuře é"[len("ž"):len("ž")+len("luté ku")] + "\u00ff"
	}
	return ceText[a.V]
}

func ceNameDER(n [][]ceAtv) []byte {
	var rdns [][]byte
	for _, r := range n {
		var atvs [][]byte
		for _, a := range r {
			atvs = append(atvs, ceAtvDER(a))
		}
		rdns = append(rdns, derSet(atvs...))
	}
	return derSeq(rdns...)
}

func ceSigDER(s string) []byte {
	hash := func(n int, params ...[]byte) []byte {
		return derSeq(append([][]byte{derOID(2, 16, 840, 1, 101, 3, 4, 2, n)}, params...)...)
	}
	pss := func(h int, mgf int, salt int, trailer int, params []byte) []byte {
		ps := [][]byte{der(0xa0, hash(h, params)), der(0xa1, derSeq(derOID(1, 2, 840, 113549, 1, 1, 8), hash(mgf, derNull()))), der(0xa2, derInt64(int64(salt)))}
		if trailer != 1 {
			ps = append(ps, der(0xa3, derInt64(int64(trailer))))
		}
		return derSeq(derOID(1, 2, 840, 113549, 1, 1, 10), derSeq(ps...))
	}
	rsaSig := func(n int) []byte { return derSeq(derOID(1, 2, 840, 113549, 1, 1, n), derNull()) }
	switch s {
	case "rsamd5":
		return rsaSig(4)
	case "rsa1":
		return rsaSig(5)
	case "rsa256":
		return rsaSig(11)
	case "rsa384":
		return rsaSig(12)
	case "rsa512":
		return rsaSig(13)
	case "rsa1iso":
		return derSeq(derOID(1, 3, 14, 3, 2, 29))
	case "rsaabsent":
		return derSeq(derOID(1, 2, 840, 113549, 1, 1, 11))
	case "pss256":
		return pss(1, 1, 32, 1, derNull())
	case "pss384":
		return pss(2, 2, 48, 1, derNull())
	case "pss512":
		return pss(3, 3, 64, 1, derNull())
	case "psssalt":
		return pss(1, 1, 20, 1, derNull())
	case "psstrailer":
		return pss(1, 1, 32, 2, derNull())
	case "pssmgf":
		return pss(1, 2, 32, 1, derNull())
	case "pssparams":
		return pss(1, 1, 32, 1, nil)
	case "dsa1":
		return derSeq(derOID(1, 2, 840, 10040, 4, 3))
	case "dsa256":
		return derSeq(derOID(2, 16, 840, 1, 101, 3, 4, 3, 2))
	case "ec1":
		return derSeq(derOID(1, 2, 840, 10045, 4, 1))
	case "ec256":
		return derSeq(derOID(1, 2, 840, 10045, 4, 3, 2))
	case "ec384":
		return derSeq(derOID(1, 2, 840, 10045, 4, 3, 3))
	case "ec512":
		return derSeq(derOID(1, 2, 840, 10045, 4, 3, 4))
	case "other":
		return derSeq(derOID(1, 2, 3, 4, 5), derSeq())
	}
	fatal("cert: signature %q", s)
	return nil
}

type ceKey struct {
	spki, canonical []byte
	pub             interface{}
	alg             x509.PublicKeyAlgorithm
}

var ceKeys = map[string]ceKey{}

func ceInitKeys() {
	rsaKey := func(n *big.Int, e int64, params []byte, neg bool) []byte {
		num := derInt(n)
		if neg {
			num = der(2, n.Bytes())
		}
		return derSeq(derSeq(derOID(1, 2, 840, 113549, 1, 1, 1), params), derBits(derSeq(num, derInt64(e))))
	}
	a, b := keys["rsaA"].rsa.PublicKey, keys["rsaB"].rsa.PublicKey
	if a.N.BitLen()%8 != 0 {
		fatal("cert: the modulus of rsaA is not negative without its leading zero")
	}
	plain := rsaKey(a.N, int64(a.E), derNull(), false)
	ceKeys["rsaA"] = ceKey{spki: plain, pub: &a, alg: x509.RSA}
	ceKeys["rsaNoNull"] = ceKey{spki: rsaKey(a.N, int64(a.E), nil, false), pub: &a, alg: x509.RSA}
	ceKeys["rsaNegative"] = ceKey{spki: rsaKey(a.N, int64(a.E), derNull(), true), canonical: plain, pub: &a, alg: x509.RSA}
	ceKeys["rsaB"] = ceKey{spki: rsaKey(b.N, int64(b.E), derNull(), false), pub: &b, alg: x509.RSA}
	ceKeys["rsaF0"] = ceKey{spki: rsaKey(b.N, 3, derNull(), false), pub: &rsa.PublicKey{N: b.N, E: 3}, alg: x509.RSA}
	ceKeys["rsaBigE"] = ceKey{spki: rsaKey(b.N, 1<<40+1, derNull(), false), pub: &rsa.PublicKey{N: b.N, E: 1<<40 + 1}, alg: x509.RSA}
	ceKeys["ecA"] = ceKey{spki: keys["ecA"].spki, pub: &keys["ecA"].ec.PublicKey, alg: x509.ECDSA}
	for nm, c := range map[string]struct {
		c   elliptic.Curve
		oid []int
	}{"p224": {elliptic.P224(), []int{1, 3, 132, 0, 33}}, "p384": {elliptic.P384(), []int{1, 3, 132, 0, 34}}, "p521": {elliptic.P521(), []int{1, 3, 132, 0, 35}}} {
		p := c.c.Params()
		n := (p.BitSize + 7) / 8
		pt := append([]byte{4}, append(p.Gx.FillBytes(make([]byte, n)), p.Gy.FillBytes(make([]byte, n))...)...)
		ceKeys[nm] = ceKey{spki: derSeq(derSeq(derOID(1, 2, 840, 10045, 2, 1), derOID(c.oid...)), derBits(pt)), pub: &ecdsa.PublicKey{Curve: c.c, X: p.Gx, Y: p.Gy}, alg: x509.ECDSA}
	}
	for _, nm := range []string{"dsaA", "dsaB"} {
		ceKeys[nm] = ceKey{spki: keys[nm].spki, pub: &keys[nm].dsa.PublicKey, alg: x509.DSA}
	}
	ceKeys["ed"] = ceKey{spki: keys["edA"].spki, pub: keys["edA"].ed.Public(), alg: x509.Ed25519}
	ceKeys["other"] = ceKey{spki: derSeq(derSeq(derOID(1, 2, 3, 9)), derBits([]byte{1, 2, 3, 4})), alg: 0}
	ceKeys["none"] = ceKey{}
}

func ceGeneral(t string) []byte {
	switch t[0] {
	case 'd':
		if t == "dir" {
			return der(0xa4, ceNameDER([][]ceAtv{{{"CN", "utf8", "A"}}}))
		}
		return der(0x82, []byte(ceStrings[t]))
	case 'e':
		return der(0x81, []byte(ceStrings[t]))
	case 'i':
		return der(0x87, []byte(ceStrings[t]))
	case 'u':
		return der(0x86, []byte(ceStrings[t]))
	}
	switch t {
	case "oth":
		return der(0xa0, derOID(1, 2, 3), der(0xa0, derUTF8("x")))
	case "rid":
		return der(0x88, []byte{42, 3})
	}
	fatal("cert: name %q", t)
	return nil
}

func ceExtValue(e ceExt) []byte {
	var items [][]byte
	add := func(b []byte) { items = append(items, b) }
	switch e.Id {
	case "ku":
		var bits [2]byte
		n := 0
		for _, x := range e.X {
			i, _ := strconv.Atoi(x)
			bits[i/8] |= 0x80 >> (i % 8)
			if i+1 > n {
				n = i + 1
			}
		}
		l := (n + 7) / 8
		return der(3, []byte{byte(l*8 - n)}, bits[:l])
	case "bc":
		if e.X[0] == "ca" {
			add(derBool(true))
		}
		if e.X[1] != "none" {
			n, _ := strconv.Atoi(e.X[1])
			add(derInt64(int64(n)))
		}
	case "san":
		for _, x := range e.X {
			add(ceGeneral(x))
		}
	case "nc":
		sides := map[byte][][]byte{}
		for _, x := range e.X {
			base := map[string]string{"d1": "d1", "d2": "d2", "e1": "e1", "i4": "i4", "i6": "i6", "u1": "u1", "dir": "dir", "d1m": "d1"}[x[1:]]
			g := ceGeneral(base)
			switch base {
			case "d2":
				g = der(0x82, []byte("b.example"))
			case "i4":
				g = der(0x87, []byte(ceStrings["i4"]), []byte{255, 255, 0, 0})
			case "i6":
				g = der(0x87, []byte(ceStrings["i6"]), bytes.Repeat([]byte{255}, 8), make([]byte, 8))
			case "u1":
				g = der(0x86, []byte("a.example"))
			}
			if x == "pd1m" {
				g = append(g, append(der(0x80, []byte{0}), der(0x81, []byte{3})...)...)
			}
			sides[x[0]] = append(sides[x[0]], derSeq(g))
		}
		if s := sides['p']; s != nil {
			add(der(0xa0, s...))
		}
		if s := sides['x']; s != nil {
			add(der(0xa1, s...))
		}
	case "cdp":
		for _, x := range e.X {
			full := func(gs ...string) []byte {
				var b [][]byte
				for _, g := range gs {
					b = append(b, ceGeneral(g))
				}
				return der(0xa0, der(0xa0, b...))
			}
			issuer := der(0xa2, ceGeneral("dir"))
			add(derSeq(map[string][]byte{"u1": full("u1"), "u2": full("u2"), "u1u2": full("u1", "u2"), "diru1": full("dir", "u1"), "u1dir": full("u1", "dir"), "issuer": issuer,
				"u2r": append(full("u2"), der(0x81, []byte{1, 6})...), "u1c": append(full("u1"), issuer...)}[x]))
		}
	case "akid":
		for _, x := range e.X {
			if x == "k" {
				add(der(0x80, []byte(ceStrings["k"])))
			} else {
				add(der(0xa1, ceGeneral("dir")))
				add(der(0x82, []byte{5}))
			}
		}
	case "skid":
		if len(e.X) == 0 {
			return derOctet(nil)
		}
		return derOctet([]byte(ceStrings["k"]))
	case "eku":
		for _, x := range e.X {
			add(derOID(ceEKUs[x]...))
		}
	case "pol":
		for _, x := range e.X {
			switch x {
			case "huge":
				add(derSeq(der(6, []byte{0x69, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})))
			case "p2q":
				add(derSeq(derOID(cePols[x]...), derSeq(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 2, 1), der(0x16, []byte("http://a.example/cps"))))))
			default:
				add(derSeq(derOID(cePols[x]...)))
			}
		}
	case "aia":
		for _, x := range e.X {
			switch x {
			case "oc1", "oc2":
				add(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 1), der(0x86, []byte(ceStrings[x]))))
			case "is1":
				add(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 2), der(0x86, []byte(ceStrings[x]))))
			case "ocdir":
				add(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 1), ceGeneral("dir")))
			case "rep":
				add(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 5), der(0x86, []byte(ceStrings["is1"]))))
			}
		}
	case "pm":
		add(derSeq(derOID(1, 2, 3), derOID(1, 2, 4)))
	case "pc":
		add(der(0x80, []byte{0}))
		add(der(0x81, []byte{1}))
	case "iap":
		return derInt64(1)
	case "ce9", "unk":
		return derUTF8("whatever")
	case "ns":
		return der(3, []byte{4, 0x10})
	case "unkEmpty":
		return nil
	}
	return derSeq(items...)
}

func (c *ceCert) tbs() []byte {
	k, ok := ceKeys[c.Key]
	if !ok {
		fatal("cert: key %q", c.Key)
	}
	var tbs [][]byte
	if c.Version != 1 {
		tbs = append(tbs, der(0xa0, derInt64(int64(c.Version-1))))
	}
	serial := derInt(ceSerials[c.Serial])
	if c.Serial == "negative" {
		serial = []byte{2, 2, 0xff, 0x7f}
	}
	tm := func(s string) []byte {
		t, ok := ceTimes[s]
		if !ok {
			fatal("cert: time %q", s)
		}
		return der(t.tag, []byte(t.text))
	}
	tbs = append(tbs, serial, ceSigDER(c.Sig), ceNameDER(c.Issuer), derSeq(tm(c.Nb), tm(c.Na)), ceNameDER(c.Subject), k.spki)
	if strings.Contains(c.Uid, "i") {
		tbs = append(tbs, der(0x81, []byte{0, 1, 2}))
	}
	if strings.Contains(c.Uid, "s") {
		tbs = append(tbs, der(0x82, []byte{4, 0xf0}))
	}
	if len(c.Exts) > 0 {
		var es [][]byte
		for _, e := range c.Exts {
			parts := [][]byte{derOID(ceIds[e.Id]...)}
			if e.Crit {
				parts = append(parts, derBool(true))
			}
			es = append(es, derSeq(append(parts, derOctet(ceExtValue(e)))...))
		}
		tbs = append(tbs, der(0xa3, derSeq(es...)))
	}
	return derSeq(tbs...)
}

func (c *ceCert) encode() []byte {
	outer := ceSigDER(c.Sig)
	if c.Outer == "other" {
		outer = derSeq(derOID(1, 2, 3, 4, 5, 6))
	}
	return derSeq(c.tbs(), outer, derBits([]byte{1, 2, 3, 0xfe}))
}

// check: how the certificate differs from what it is specified to mean.
func (m *ceMeaning) check(c *ceCert, raw []byte, x *x509.Certificate, strict bool) string {
	var d []string
	eq := func(what string, want, got interface{}) {
		if !reflect.DeepEqual(want, got) {
			d = append(d, fmt.Sprintf("%s: specified %#v, got %#v", what, want, got))
		}
	}
	strs := func(what string, want []string, got []string) {
		var w []string
		for _, s := range want {
			w = append(w, ceStrings[s])
		}
		if fmt.Sprintf("%q", w) != fmt.Sprintf("%q", got) {
			d = append(d, fmt.Sprintf("%s: specified %q, got %q", what, w, got))
		}
	}
	oids := func(what string, table map[string][]int, want []string, got []asn1.ObjectIdentifier) {
		var w []string
		for _, s := range want {
			w = append(w, asn1.ObjectIdentifier(table[s]).String())
		}
		if fmt.Sprint(w) != fmt.Sprint(got) {
			d = append(d, fmt.Sprintf("%s: specified %v, got %v", what, w, got))
		}
	}
	eq("version", m.Version, x.Version)
	if x.SerialNumber == nil || x.SerialNumber.Cmp(ceSerials[m.Serial]) != 0 {
		eq("serial", m.Serial, x.SerialNumber)
	}
	eq("signature algorithm", ceSigs[m.Sig], x.SignatureAlgorithm)
	eq("signature", []byte{1, 2, 3, 0xfe}, x.Signature)
	eq("not before", ceTimes[m.Nb].t.Unix(), x.NotBefore.Unix())
	if t := ceTimes[m.Na].t; !t.Equal(x.NotAfter) {
		eq("not after", t, x.NotAfter)
	}
	name := func(what string, n ceName, plain [][]ceAtv, p pkix.Name, rawName []byte) {
		eq(what+" encoded", ceNameDER(plain), rawName)
		vals := func(field, t string, want []string, got []string) {
			var w []string
			for _, a := range n.All { // the text depends on the kind of string
				if a.T == t && map[string]bool{"utf8": true, "t61": true, "bmp": true, "printable": true, "ia5": true, "numeric": true}[a.K] {
					w = append(w, ceTextAs(a))
				}
			}
			if len(want) < len(w) {
				w = w[len(w)-len(want):]
			}
			if len(w) != len(want) {
				fatal("cert: %s %s: %v %v", what, field, want, w)
			}
			if fmt.Sprintf("%q", w) != fmt.Sprintf("%q", got) {
				d = append(d, fmt.Sprintf("%s %s: specified %q, got %q", what, field, w, got))
			}
		}
		one := func(s string, there int) []string {
			if s == "" && there == 0 {
				return nil
			}
			return []string{s}
		}
		vals("common name", "CN", n.CN, one(p.CommonName, len(n.CN)))
		vals("serial", "SERIAL", n.SERIAL, one(p.SerialNumber, len(n.SERIAL)))
		vals("country", "C", n.C, p.Country)
		vals("locality", "L", n.L, p.Locality)
		vals("province", "ST", n.ST, p.Province)
		vals("street", "STREET", n.STREET, p.StreetAddress)
		vals("organization", "O", n.O, p.Organization)
		vals("unit", "OU", n.OU, p.OrganizationalUnit)
		vals("postal code", "POSTAL", n.POSTAL, p.PostalCode)
		if len(p.Names) != len(n.All) {
			d = append(d, fmt.Sprintf("%s: specified %v, got %v", what, n.All, p.Names))
			return
		}
		for i, a := range n.All {
			var want interface{}
			switch a.K {
			case "int":
				want = int64(77)
			case "oid":
				want = asn1.ObjectIdentifier{1, 2, 3}
			case "octets":
				want = []byte{9}
			case "bits":
				want = asn1.BitString{Bytes: []byte{0xa5}, BitLength: 8}
			case "bool":
				want = true
			case "utc":
				want = time.Date(2019, 2, 3, 4, 5, 6, 0, time.UTC)
			case "null", "general":
				want = p.Names[i].Value
			default:
				want = ceTextAs(a)
			}
			eq(fmt.Sprintf("%s %d", what, i), pkix.AttributeTypeAndValue{Type: ceAttr[a.T], Value: want}, p.Names[i])
		}
	}
	name("issuer", m.Issuer, c.Issuer, x.Issuer, x.RawIssuer)
	name("subject", m.Subject, c.Subject, x.Subject, x.RawSubject)

	k := ceKeys[m.Key]
	eq("key algorithm", k.alg, x.PublicKeyAlgorithm)
	same := false
	switch p := k.pub.(type) {
	case nil:
		same = x.PublicKey == nil
	case *dsa.PublicKey:
		q, ok := x.PublicKey.(*dsa.PublicKey)
		same = ok && p.P.Cmp(q.P) == 0 && p.Q.Cmp(q.Q) == 0 && p.G.Cmp(q.G) == 0 && p.Y.Cmp(q.Y) == 0
	case *ecdsa.PublicKey:
		q, ok := x.PublicKey.(*ecdsa.PublicKey)
		same = ok && p.Curve == q.Curve && p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
	case *rsa.PublicKey:
		q, ok := x.PublicKey.(*rsa.PublicKey)
		same = ok && p.E == q.E && p.N.Cmp(q.N) == 0
	default:
		same = reflect.DeepEqual(k.pub, x.PublicKey)
	}
	if !same {
		eq("key", k.pub, x.PublicKey)
	}
	spki := ceKeys[c.Key].spki
	if b := ceKeys[c.Key].canonical; b != nil {
		spki = b
	}
	eq("key encoded", hex.EncodeToString(spki), hex.EncodeToString(x.RawSubjectPublicKeyInfo))
	if !bytes.Equal(raw, x.Raw) || !bytes.Equal(x.RawTBSCertificate, c.tbs()) {
		d = append(d, fmt.Sprintf("raw %x tbs %x", x.Raw, x.RawTBSCertificate))
	}

	ku := x509.KeyUsage(0)
	for _, b := range m.Ku {
		i, _ := strconv.Atoi(b)
		ku |= 1 << i
	}
	eq("key usage", ku, x.KeyUsage)
	eq("constraints valid", m.BcValid, x.BasicConstraintsValid)
	eq("CA", m.Ca, x.IsCA)
	eq("path length", m.Path, strconv.Itoa(x.MaxPathLen))
	eq("path length zero", m.PathZero, x.MaxPathLenZero)
	strs("DNS names", m.Dns, x.DNSNames)
	strs("e-mail addresses", m.Emails, x.EmailAddresses)
	var ips []string
	for _, ip := range x.IPAddresses {
		ips = append(ips, string(ip))
	}
	strs("IP addresses", m.Ips, ips)
	eq("constraints critical", m.NcCritical, x.PermittedDNSDomainsCritical)
	plain := func(ss []string) (o []string) {
		for _, s := range ss {
			if s == "b.example" {
				s = "*." + s
			}
			o = append(o, s)
		}
		return
	}
	strs("permitted", m.Permitted, plain(x.PermittedDNSDomains))
	strs("excluded", m.Excluded, plain(x.ExcludedDNSDomains))
	strs("CRL", m.Crl, x.CRLDistributionPoints)
	one := func(b []byte) []string {
		if len(b) == 0 {
			return nil
		}
		return []string{string(b)}
	}
	strs("authority key", m.Akid, one(x.AuthorityKeyId))
	strs("subject key", m.Skid, one(x.SubjectKeyId))
	var us []x509.ExtKeyUsage
	for _, u := range m.Eku {
		us = append(us, ceUsages[u])
	}
	eq("extended key usages", us, x.ExtKeyUsage)
	oids("unknown extended key usages", ceEKUs, m.EkuOther, x.UnknownExtKeyUsage)
	oids("policies", cePols, m.Pol, x.PolicyIdentifiers)
	strs("OCSP", m.Ocsp, x.OCSPServer)
	strs("issuing", m.Issuing, x.IssuingCertificateURL)
	oids("unhandled", ceIds, m.Unhandled, x.UnhandledCriticalExtensions)
	if len(x.Extensions) != len(c.Exts) {
		d = append(d, fmt.Sprintf("%d extensions", len(x.Extensions)))
	} else {
		for i, e := range c.Exts {
			if g := x.Extensions[i]; !g.Id.Equal(ceIds[e.Id]) || g.Critical != e.Crit || !bytes.Equal(g.Value, ceExtValue(e)) {
				d = append(d, fmt.Sprintf("extension %d: specified %v, got %v", i, e, g))
			}
		}
	}
	return strings.Join(d, "; ")
}

func ceTry(f func() (*x509.Certificate, error)) (c *x509.Certificate, err error, bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprint("panic: ", p)
		}
	}()
	c, err = f()
	return
}

func (c *ceCase) run() (bad, wrong string) {
	raw := c.C.encode()
	x, err := x509.ParseCertificate(raw)
	if c.Strict != (err == nil) {
		wrong = fmt.Sprintf("crypto/x509: %v, specified %v", err, c.Strict)
	} else if err == nil {
		if d := c.Sm.check(&c.C, raw, x, true); d != "" {
			wrong = "crypto/x509: " + d
		}
	}
	for _, way := range []struct {
		name string
		f    func() (*x509.Certificate, error)
	}{
		{"alone", func() (*x509.Certificate, error) { return lenient.ParseCertificate(append([]byte{}, raw...)) }},
		{"in PKCS#7", func() (*x509.Certificate, error) {
			p, err := pkcs7.Parse(derSeq(derOID(1, 2, 840, 113549, 1, 7, 2), der(0xa0, derSeq(derInt64(1), derSet(), derSeq(derOID(1, 2, 840, 113549, 1, 7, 1)), der(0xa0, certDER["ecA"], raw), derSet()))))
			if err != nil {
				return nil, err
			}
			if len(p.Certificates) != 2 || !bytes.Equal(p.Certificates[0].Raw, certDER["ecA"]) {
				return nil, fmt.Errorf("%d certificates", len(p.Certificates))
			}
			return p.Certificates[1], nil
		}},
	} {
		y, yerr, p := ceTry(way.f)
		switch {
		case p != "":
			bad = p
		case c.Lenient != (yerr == nil):
			bad = fmt.Sprintf("%v, specified %v", yerr, c.Lenient)
		case yerr == nil && y == nil:
			bad = "neither certificate nor error"
		case yerr == nil:
			bad = c.Lm.check(&c.C, raw, y, false)
		}
		if bad != "" {
			return way.name + ": " + bad, wrong
		}
	}
	return
}

func certCfg(edits, list, sample int, parts []string, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT MaxEdits = %d\nCONSTANT MaxList = %d\nCONSTANT Sample = %d\nCONSTANT Parts = {\"%s\"}\nCONSTANT Mutant = %q\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n", edits, list, sample, strings.Join(parts, "\",\""), mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func certEngine(r *report, prop, tier string, seed int) {
	ceInitKeys()
	all := []string{"serial", "sig", "outer", "key", "subject", "issuer", "nb", "na", "version", "uid", "exts"}
	for _, m := range []string{"ku8", "path", "onecrl", "ncError", "pss"} {
		mustViolate("Cert", certCfg(1, 2, 1, []string{"exts", "sig"}, m, false), "Agree", seed)
	}
	type plan struct {
		edits, list int
		parts       []string
		one         int
	}
	plans := []plan{{1, 2, all, 1}, {2, 1, all, 1}}
	if tier == "thorough" {
		plans = []plan{{1, 3, all, 1}, {2, 2, all, 3}, {3, 1, []string{"exts"}, 40}}
	}
	for _, pl := range plans {
		lines := make(chan string, 1000)
		var st tlcStats
		go func() {
			st = runTLC("Cert", certCfg(pl.edits, pl.list, pl.one, pl.parts, "none", true), seed, nil, nil, func(s string) {
				lines <- s
			})
			close(lines)
		}()
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range lines {
					var c ceCase
					if err := json.Unmarshal([]byte(s), &c); err != nil {
						fatal("cert: %v: %.300s", err, s)
					}
					bad, wrong := c.run()
					if wrong != "" {
						fatal("cert: the specification is wrong: %s: %s", s, wrong)
					}
					if bad != "" {
						r.add(violation{Prop: prop, Engine: "cert", What: bad, Extra: c})
					} else if caseHash(s, seed)%20000 == 0 {
						r.sample(c.C)
					}
					switch {
					case c.Strict:
						r.note("certificate_strict", 1)
					case c.Lenient:
						r.note("certificate_lenient", 1)
					}
					r.mu.Lock()
					r.calls += 3
					r.mu.Unlock()
				}
			}()
		}
		wg.Wait()
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
	}
	// several certificates one after another, and none
	var many []byte
	names := make([]string, 0, len(certDER))
	for n := range certDER {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		many = append(many, certDER[n]...)
		cs, err := lenient.ParseCertificates(many)
		r.calls++
		ok := err == nil && len(cs) == i+1
		for j := range cs {
			ok = ok && bytes.Equal(cs[j].Raw, certDER[names[j]])
		}
		if !ok {
			r.add(violation{Prop: prop, Engine: "cert", What: fmt.Sprintf("%d certificates in a row: %d, %v", i+1, len(cs), err), Extra: ceCase{}})
		}
		for _, tail := range [][]byte{{0}, {0x30}, {0x30, 1, 0}, many[:len(many)-1]} {
			if cs, err := lenient.ParseCertificates(append(append([]byte{}, many...), tail...)); err == nil {
				r.add(violation{Prop: prop, Engine: "cert", What: fmt.Sprintf("certificates with %x behind: %d", tail, len(cs)), Extra: ceCase{}})
			}
			if _, err := lenient.ParseCertificate(append(append([]byte{}, certDER[n]...), tail...)); err == nil {
				r.add(violation{Prop: prop, Engine: "cert", What: fmt.Sprintf("a certificate with %x behind is accepted", tail), Extra: ceCase{}})
			}
		}
	}
}

func init() {
	replayers["cert"] = func(v violation) string {
		ceInitKeys()
		var c ceCase
		j, _ := json.Marshal(v.Extra)
		must(json.Unmarshal(j, &c))
		bad, _ := c.run()
		return bad
	}
}

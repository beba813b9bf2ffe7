package main

// C28: encrypted PKCS#7 messages (spec/Envelope.tla).

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

type eDam struct {
	Op, W string
	I, X  int
}
type eOpen struct{ Cert, Key, Out string }
type eCase struct {
	How struct {
		By, Cipher, Kind string
		Certs            []string
		N, P, Bad        int
	}
	Fails bool
	Dam   []eDam
	Enc   string
	Opens []eOpen
	Text  []int
	Seed  int64
}

var (
	eOID = map[string][]int{"des": {1, 3, 14, 3, 2, 7}, "3des": {1, 2, 840, 113549, 3, 7}, "aes128": {2, 16, 840, 1, 101, 3, 4, 1, 2},
		"aes256": {2, 16, 840, 1, 101, 3, 4, 1, 42}, "gcm": {2, 16, 840, 1, 101, 3, 4, 1, 6}, "unknown": {2, 16, 840, 1, 101, 3, 4, 1, 22}}
	eKeyLen = map[string]int{"des": 8, "3des": 24, "aes128": 16, "aes256": 32, "gcm": 16}
	eCerts  = []string{"rsaA", "rsaB", "leafRA", "fakeRA", "twinR", "ecA"}
	eKeys   = []string{"rsaA", "rsaB", "rsaL", "ecA"}
	eKeyOf  = map[string]string{"rsaA": "rsaA", "rsaB": "rsaB", "leafRA": "rsaL", "fakeRA": "rsaB", "twinR": "rsaB", "ecA": "ecA"}
	eFresh  sync.Map // keys and IVs seen
)

func eBS(c string) int {
	if c == "des" || c == "3des" {
		return 8
	}
	return 16
}

func eBlock(c string, key []byte) cipher.Block {
	var b cipher.Block
	var err error
	switch c {
	case "des":
		b, err = des.NewCipher(key)
	case "3des":
		b, err = des.NewTripleDESCipher(key)
	default:
		b, err = aes.NewCipher(key)
	}
	must(err)
	return b
}

func eBytes(kind string, n, bs int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case "x":
			b[i] = byte(100 + (i+1)%90)
		case "pad":
			b[i] = byte(bs)
		case "one":
			b[i] = 1
		}
	}
	return b
}

func ePad(b []byte, bs int) []byte {
	n := bs - len(b)%bs
	return append(append([]byte{}, b...), bytes.Repeat([]byte{byte(n)}, n)...)
}

type eRecip struct{ ias, to, what string }

// a message, in parts
type eMsg struct {
	cipher, oid string
	key, iv, ct []byte
	icv         int64
	noParams    bool
	recips      []eRecip
}

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func eOthers(c *eCase, rng *rand.Rand) *eMsg {
	h := c.How
	m := &eMsg{cipher: h.Cipher, oid: h.Cipher, key: randBytes(rng, eKeyLen[h.Cipher]), icv: 16}
	for _, n := range h.Certs {
		m.recips = append(m.recips, eRecip{n, eKeyOf[n], "key"})
	}
	if h.Cipher == "gcm" {
		m.iv = randBytes(rng, 12)
		g, err := cipher.NewGCM(eBlock("gcm", m.key))
		must(err)
		m.ct = g.Seal(nil, m.iv, eBytes(h.Kind, h.N, 16), nil)
		return m
	}
	bs := eBS(h.Cipher)
	m.iv = randBytes(rng, bs)
	var p []byte
	if h.P < 0 {
		p = ePad(eBytes(h.Kind, h.N, bs), bs)
	} else if p = eBytes(h.Kind, h.N*bs, bs); len(p) > 0 {
		for i := 1; i <= h.P && i <= len(p); i++ {
			p[len(p)-i] = byte(h.P)
		}
		if h.P == 0 {
			p[len(p)-1] = 0
		} else if h.Bad > 0 {
			p[len(p)-h.Bad] = byte(h.P) ^ 1
		}
	}
	m.ct = make([]byte, len(p))
	cipher.NewCBCEncrypter(eBlock(h.Cipher, m.key), m.iv).CryptBlocks(m.ct, p)
	return m
}

func (m *eMsg) damage(d eDam, rng *rand.Rand) {
	bs := eBS(m.cipher)
	m.ct = append([]byte{}, m.ct...)
	switch d.Op {
	case "ctflip":
		m.ct[d.I-1] ^= byte(d.X)
	case "tagflip":
		m.ct[len(m.ct)-17+d.I] ^= byte(d.X)
	case "tagcut":
		m.ct = m.ct[:len(m.ct)-d.X]
	case "icv":
		m.icv = int64(d.X)
	case "ivflip":
		m.iv = append([]byte{}, m.iv...)
		m.iv[d.I-1] ^= byte(d.X)
	case "ivshort":
		m.iv = m.iv[1:]
	case "ivlong":
		m.iv = append(append([]byte{}, m.iv...), 7)
	case "ivnone":
		m.noParams = true
	case "drop":
		m.ct = append(m.ct[:(d.I-1)*bs:(d.I-1)*bs], m.ct[d.I*bs:]...)
	case "dropiv":
		m.iv, m.ct = m.ct[:bs], m.ct[bs:]
	case "cut":
		if m.cipher == "gcm" {
			m.ct = m.ct[d.X:]
		} else {
			m.ct = m.ct[:len(m.ct)-d.X]
		}
	case "empty":
		m.ct = nil
	case "more":
		m.ct = append(m.ct, randBytes(rng, bs)...)
	case "rcdrop":
		m.recips = append(m.recips[:d.I-1:d.I-1], m.recips[d.I:]...)
	case "rcrev":
		for i, j := 0, len(m.recips)-1; i < j; i, j = i+1, j-1 {
			m.recips[i], m.recips[j] = m.recips[j], m.recips[i]
		}
	case "rcwhat":
		m.recips[d.I-1].what = d.W
	case "rcias":
		m.recips[d.I-1].ias = d.W
	case "oid":
		m.oid = d.W
	default:
		fatal("damage %v", d)
	}
}

func (m *eMsg) encode(form string, rng *rand.Rand) []byte {
	var rs [][]byte
	for _, r := range m.recips {
		k := m.key
		switch r.what {
		case "other":
			k = randBytes(rng, len(m.key))
		case "short":
			k = k[:len(k)-1]
		}
		ek, err := rsa.EncryptPKCS1v15(crand.Reader, &keys[r.to].rsa.PublicKey, k)
		must(err)
		if r.what == "broken" {
			ek[3+rng.Intn(len(ek)-3)] ^= 1 << rng.Intn(8)
		}
		x := certX509[r.ias]
		rs = append(rs, derSeq(derInt64(0), derSeq(x.RawIssuer, derInt(x.SerialNumber)), derSeq(derOID(1, 2, 840, 113549, 1, 1, 1), derNull()), derOctet(ek)))
	}
	var params []byte
	switch {
	case m.noParams && m.cipher == "gcm":
		params = derSeq()
	case m.noParams:
	case m.cipher == "gcm":
		params = der(0x10, derSeq(der(0x84, m.iv), derInt64(m.icv))) // as the library writes it
	default:
		params = derOctet(m.iv)
	}
	env := derSeq(derInt64(0), derSet(rs...), derSeq(derOID(1, 2, 840, 113549, 1, 7, 1), derSeq(derOID(eOID[m.oid]...), params), der(0x80, m.ct)))
	return spellEnvelope(derSeq(derOID(1, 2, 840, 113549, 1, 7, 3), der(0xa0, env)), form)
}

// spellEnvelope: the same message in another encoding.
func spellEnvelope(b []byte, form string) []byte {
	root := one(b)
	eci := root.kids[1].kids[0].kids[2]
	ct := eci.kids[2]
	if form == "prim" || len(form) > 3 && form[:3] == "seg" {
		if ct.tag == 0xa0 {
			ct.val = ct.kids[0].val
		}
		ct.tag, ct.kids, ct.long = 0x80, nil, form != "prim"
	}
	return root.enc(form, 0)
}

var eAlg = map[string]int{"des": pkcs7.EncryptionAlgorithmDESCBC, "gcm": pkcs7.EncryptionAlgorithmAES128GCM}

// eLibrary: the library makes the message (its cipher has been chosen).
func eLibrary(c *eCase, content []byte) (out []byte, bad string) {
	room := append(append(make([]byte, 0, len(content)+40), content...), bytes.Repeat([]byte{0xee}, 40)...)
	var xs []*x509.Certificate
	for _, n := range c.How.Certs {
		xs = append(xs, certX509[n])
	}
	msg, err := pkcs7.Encrypt(room[:len(content)], xs)
	if !bytes.Equal(room[:len(content)], content) || !bytes.Equal(room[len(content):], bytes.Repeat([]byte{0xee}, 40)) {
		return nil, "encrypting changed the caller's memory"
	}
	if c.Fails != (err != nil) {
		return nil, fmt.Sprintf("specified error: %v, got %v", c.Fails, err)
	}
	if err != nil {
		return nil, ""
	}
	// every message has a key and an IV of its own
	env := one(msg).kids[1].kids[0]
	if len(env.kids) != 3 || len(env.kids[1].kids) != len(xs) {
		return nil, fmt.Sprintf("%d recipients in the message", len(env.kids[1].kids))
	}
	params := env.kids[2].kids[1].kids[1]
	fresh := [][]byte{params.val}
	for i, r := range env.kids[1].kids { // a SET: in any order
		var k []byte
		for _, n := range c.How.Certs {
			if x := certX509[n]; k == nil && bytes.Equal(r.kids[1].der(), derSeq(x.RawIssuer, derInt(x.SerialNumber))) {
				k, _ = rsa.DecryptPKCS1v15(nil, keys[eKeyOf[n]].rsa, r.kids[3].val)
			}
		}
		if k == nil {
			return nil, fmt.Sprintf("recipient %d is none of those given, or another's key opens it", i+1)
		}
		if i == 0 {
			fresh = append(fresh, k)
		} else if !bytes.Equal(k, fresh[1]) {
			return nil, fmt.Sprintf("recipient %d has another key", i+1)
		}
	}
	for i, f := range fresh {
		if _, dup := eFresh.LoadOrStore(fmt.Sprintf("%s %d %x", c.How.Cipher, i, f), true); dup {
			return nil, fmt.Sprintf("two messages with the same %s", []string{"IV or nonce", "key"}[i])
		}
	}
	return spellEnvelope(msg, c.Enc), ""
}

func eTry(msg []byte, cert, key string) (text []byte, err error, panicked string) {
	g := guard(callLimit, func() {
		var p *pkcs7.PKCS7
		in := append([]byte{}, msg...)
		if p, err = pkcs7.Parse(in); err != nil {
			return
		}
		if text, err = p.Decrypt(certX509[cert], privOf(key)); err != nil {
			text = nil
			return
		}
		again, err2 := p.Decrypt(certX509[cert], privOf(key))
		if err2 != nil || !bytes.Equal(text, again) || !bytes.Equal(in, msg) {
			panicked = fmt.Sprintf("the second time it says %x, %v (message changed: %v)", again, err2, !bytes.Equal(in, msg))
		}
	})
	if g.panicked != "" {
		panicked = "panic " + g.panicked
	} else if g.hang {
		panicked = "hang"
	}
	return
}

func (c *eCase) run() string {
	rng := rand.New(rand.NewSource(c.Seed))
	var msg []byte
	if c.How.By == "library" {
		var bad string
		if msg, bad = eLibrary(c, eBytes(c.How.Kind, c.How.N, map[string]int{"des": 8, "gcm": 16}[c.How.Cipher])); bad != "" || c.Fails {
			return bad
		}
	} else {
		m := eOthers(c, rng)
		for _, d := range c.Dam {
			m.damage(d, rng)
		}
		msg = m.encode(c.Enc, rng)
	}
	want := map[string]string{}
	for _, o := range c.Opens {
		want[o.Cert+" "+o.Key] = o.Out
	}
	for _, cert := range eCerts {
		for _, key := range eKeys {
			text, err, bad := eTry(msg, cert, key)
			w := want[cert+" "+key]
			if bad != "" {
				return fmt.Sprintf("opened with certificate %s and key %s: %s", cert, key, bad)
			}
			if w == "any" {
				continue
			}
			if (w == "content") != (err == nil) {
				return fmt.Sprintf("certificate %s, key %s: specified %q, got %x, %v", cert, key, w, text, err)
			}
			if w == "content" {
				same := len(text) == len(c.Text)
				for i := 0; same && i < len(text); i++ {
					same = c.Text[i] < 0 || int(text[i]) == c.Text[i]
				}
				if !same {
					return fmt.Sprintf("certificate %s, key %s: specified %v, got %v", cert, key, c.Text, text)
				}
			}
		}
	}
	return ""
}

// eLong: longer contents.
func eLong(ci string, n int, seed int64) string {
	c := &eCase{Enc: []string{"der", "seg3", "indef", "prim", "segindef"}[n%5]}
	c.How.Cipher, c.How.Certs = ci, []string{"rsaB", "rsaA"}
	rng := rand.New(rand.NewSource(seed))
	content := randBytes(rng, n)
	msg, bad := eLibrary(c, content)
	if bad != "" {
		return bad
	}
	for _, k := range c.How.Certs {
		if text, err, bad := eTry(msg, k, k); err != nil || bad != "" || !bytes.Equal(text, content) {
			return fmt.Sprintf("%d bytes by %s in %s: %v %s, %d bytes", n, ci, c.Enc, err, bad, len(text))
		}
	}
	return ""
}

// eEveryByte: an authenticated message, any byte of which is changed, says what it said or nothing.
func eEveryByte(seed int64, r *report) string {
	rng := rand.New(rand.NewSource(seed))
	c := &eCase{}
	c.How.Cipher, c.How.Certs, c.How.Kind, c.How.N = "gcm", []string{"rsaA"}, "x", 33
	m := eOthers(c, rng)
	msg := m.encode([]string{"seg3", "prim"}[seed%2], rng)
	for i := range msg {
		for _, x := range []byte{1, 0x20, 0x80, 0xff} {
			b := append([]byte{}, msg...)
			b[i] ^= x
			text, err, bad := eTry(b, "rsaA", "rsaA")
			r.calls++
			if bad != "" || err == nil && !bytes.Equal(text, eBytes("x", 33, 16)) {
				return fmt.Sprintf("byte %d xor %x: %x %v %s", i, x, text, err, bad)
			}
		}
	}
	for i := range msg {
		if text, err, bad := eTry(msg[:i], "rsaA", "rsaA"); bad != "" || err == nil && !bytes.Equal(text, eBytes("x", 33, 16)) {
			return fmt.Sprintf("cut at %d: %x %v %s", i, text, err, bad)
		}
	}
	return ""
}

func envelopeCfg(mode string, dam int, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Mode = %q\nCONSTANT MaxDamage = %d\nCONSTANT Mutant = %q\nINVARIANT RoundTrip\nINVARIANT OnlyRecipients\nINVARIANT NotNamed\nINVARIANT Authentic\nINVARIANT Padded\nCHECK_DEADLOCK FALSE\n", mode, dam, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

// quietly: the library speaks to the standard output.
func quietly(f func()) {
	old := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

func envelopeEngine(r *report, prop, tier string, seed int) {
	for _, m := range [][3]string{{"pad", "zero", "Padded"}, {"pad", "over", "Padded"}, {"pad", "last", "Padded"}, {"damage", "first", "NotNamed"}, {"damage", "anykey", "OnlyRecipients"}, {"damage", "noauth", "Authentic"}} {
		mustViolate("Envelope", envelopeCfg(m[0], 1, m[1], false), m[2], seed)
	}
	type plan struct {
		mode string
		dam  int
		one  uint64
	}
	plans := []plan{{"seal", 0, 1}, {"pad", 0, 1}, {"damage", 1, 2}}
	if tier == "thorough" {
		plans = append(plans[:2], plan{"damage", 1, 1}, plan{"damage", 2, 40})
	}
	defer func() { pkcs7.ContentEncryptionAlgorithm = pkcs7.EncryptionAlgorithmDESCBC }()
	quietly(func() {
		for _, pl := range plans {
			groups := map[string][]string{}
			st := runTLC("Envelope", envelopeCfg(pl.mode, pl.dam, "none", true), seed, nil, nil, func(s string) {
				if caseHash(s, seed)%pl.one == 0 {
					g := ""
					if pl.mode == "seal" { // the library's cipher is a global setting
						var c eCase
						must(json.Unmarshal([]byte(s), &c))
						g = c.How.Cipher
					}
					groups[g] = append(groups[g], s)
				}
			})
			r.spec.Generated += st.Generated
			r.spec.Distinct += st.Distinct
			for g, lines := range groups {
				sort.Strings(lines)
				pkcs7.ContentEncryptionAlgorithm = eAlg[g]
				parallel(len(lines), func(i int) {
					var c eCase
					if err := json.Unmarshal([]byte(lines[i]), &c); err != nil {
						fatal("envelope: %v: %.300s", err, lines[i])
					}
					c.Seed = int64(seed)*1000003 + int64(i)
					if d := c.run(); d != "" {
						r.add(violation{Prop: prop, Engine: "envelope", What: d, Extra: c})
					} else if i%(len(lines)/3+1) == 1 {
						r.sample(c)
					}
					outs := map[string]bool{"error": true}
					for _, o := range c.Opens {
						outs[o.Out] = true
					}
					for o := range outs {
						r.note(pl.mode+"_"+o, 1)
					}
					r.mu.Lock()
					r.calls += len(eCerts) * len(eKeys)
					r.mu.Unlock()
				})
			}
		}
		for ci, a := range eAlg {
			pkcs7.ContentEncryptionAlgorithm = a
			for i, n := range []int{55, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65519, 65535, 65536, 65537, 100001, 1 << 20} {
				if d := eLong(ci, n, int64(seed*100+i)); d != "" {
					r.add(violation{Prop: prop, Engine: "envelopelong", What: d, Extra: map[string]interface{}{"cipher": ci, "n": n, "seed": seed*100 + i}})
				}
				r.calls += 2
			}
		}
		for i := 0; i < 2; i++ {
			if d := eEveryByte(int64(seed*10+i), r); d != "" {
				r.add(violation{Prop: prop, Engine: "envelopebyte", What: d, Extra: seed*10 + i})
			}
		}
		pkcs7.ContentEncryptionAlgorithm = 7
		if b, err := pkcs7.Encrypt([]byte("x"), nil); err == nil {
			r.add(violation{Prop: prop, Engine: "envelopebyte", What: fmt.Sprintf("an unknown cipher encrypts: %x", b), Extra: 0})
		}
	})
}

func init() {
	engines["C28"] = envelopeEngine
	replayers["envelope"] = func(v violation) (out string) {
		var c eCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		pkcs7.ContentEncryptionAlgorithm = eAlg[c.How.Cipher]
		quietly(func() { out = c.run() })
		return
	}
	replayers["envelopelong"] = func(v violation) string {
		var x struct {
			Cipher  string
			N, Seed int
		}
		j, _ := json.Marshal(v.Extra)
		must(json.Unmarshal(j, &x))
		pkcs7.ContentEncryptionAlgorithm = eAlg[x.Cipher]
		return eLong(x.Cipher, x.N, int64(x.Seed))
	}
	replayers["envelopebyte"] = func(v violation) string {
		n, _ := v.Extra.(float64)
		return eEveryByte(int64(n), newReport())
	}
}

package main

// C27: signed PKCS#7 messages (spec/Pkcs7.tla).

import (
	"bytes"
	"crypto"
	"crypto/x509"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

// --- BER trees (what is inside primitive objects is opaque) ---

type berNode struct {
	tag  byte
	val  []byte
	kids []*berNode
	long bool   // the content, to be segmented
	high []byte // the rest of a tag of several bytes
	cut  int    // how much the length given falls short
	end  []byte // what ends it if its length is indefinite
	open bool   // it is
}

func berParse(b []byte) []*berNode {
	var out []*berNode
	for len(b) > 0 {
		nd := &berNode{tag: b[0]}
		if b[0]&0x1f == 0x1f {
			k := 1
			for b[k] >= 0x80 {
				k++
			}
			nd.high = b[1 : 1+k]
			b = b[k:]
		}
		n, h := int(b[1]), 2
		if b[1] >= 0x80 {
			k := int(b[1] & 0x7f)
			n = 0
			for _, c := range b[2 : 2+k] {
				n = n<<8 | int(c)
			}
			h += k
		}
		if nd.tag&0x20 != 0 {
			nd.kids = berParse(b[h : h+n])
		} else {
			nd.val = b[h : h+n]
		}
		out = append(out, nd)
		b = b[h+n:]
	}
	return out
}

func (n *berNode) der() []byte { return n.enc("der", 0) }

// enc encodes the tree: form as in the specification.
func (n *berNode) enc(form string, depth int) []byte {
	var in []byte
	tag := n.tag
	indef := tag&0x20 != 0 && (form == "indef" || form == "segindef" || form == "indefodd" && depth%2 == 1 || form == "indefeven" && depth%2 == 0)
	in = append(in, n.val...)
	if n.long && strings.HasPrefix(form, "seg") {
		tag |= 0x20
		indef = form == "segindef"
		in = nil
		parts := [][]byte{n.val}
		if l := len(n.val); form != "seg1" && l > 0 {
			parts = [][]byte{n.val[:l/3], n.val[l/3 : l-l/4], n.val[l-l/4:]}
		}
		if form == "segempty" {
			parts = append(append([][]byte{{}}, parts...), []byte{})
		}
		for _, p := range parts {
			in = append(in, derOctet(p)...)
		}
	}
	for _, k := range n.kids {
		in = append(in, k.enc(form, depth+1)...)
	}
	head := append([]byte{tag}, n.high...)
	switch {
	case n.open:
		return append(append(append(head, 0x80), in...), n.end...)
	case n.cut > 0:
		return append(append(head, derLen(len(in)-n.cut)...), in...)
	case indef:
		return append(append(append(head, 0x80), in...), 0, 0)
	case form == "long":
		l := derLen(len(in))
		if len(l) == 1 {
			l = []byte{0x81, l[0]}
		} else if len(l) < 5 { // leading zero
			l = append([]byte{l[0] + 1, 0}, l[1:]...)
		}
		return append(append(head, l...), in...)
	}
	return append(append(head, derLen(len(in))...), in...)
}

// --- cases ---

type kAttr struct{ T, V string }
type kOver struct {
	Attrs []kAttr
	C     string
}
type kSig struct {
	Key, H string
	Over   kOver
}
type kSI struct {
	Ias, Da, Dea string
	Attrs        []kAttr
	Sig          kSig
	Unauth       bool
}
type kMsg struct {
	Content string
	Certs   []string
	Signers []kSI
}
type kEv struct {
	E struct {
		Op, Cert, Key string
		Extra         []string
	}
	Fails bool
}
type kTam struct {
	Op string
	I  int
	X  string
}
type kCase struct {
	C0      string
	Hist    []kEv
	Tam     []kTam
	Enc     string
	M       kMsg
	Ver     bool
	Only    string
	Foreign bool
	Broken  bool
	Reads   map[string]bool
	Seed    int64
}

var (
	kTypes = map[string]asn1.ObjectIdentifier{"ct": {1, 2, 840, 113549, 1, 9, 3}, "md": {1, 2, 840, 113549, 1, 9, 4}, "time": {1, 2, 840, 113549, 1, 9, 5},
		"x1": {1, 2, 3, 1}, "x2": {2, 16, 840, 1, 113733, 1, 9, 2}, "x3": {1, 3, 6, 1, 4, 1, 99999, 300}, "zz": {1, 2, 3, 99}}
	kLens = []int{1, 2, 7, 8, 55, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 65535, 65536, 70000}
)

func kTypeName(o asn1.ObjectIdentifier) string {
	for n, t := range kTypes {
		if t.Equal(o) {
			return n
		}
	}
	return "?" + o.String()
}

func privOf(k string) crypto.PrivateKey {
	if keys[k].rsa != nil {
		return keys[k].rsa
	}
	return keys[k].ec
}

// the parts of SignedData in a parsed tree
type kParts struct {
	root, sd *berNode
}

func (p kParts) find(tag byte, last bool) *berNode {
	for i := range p.sd.kids {
		if last {
			i = len(p.sd.kids) - 1 - i
		}
		if i > 1 && p.sd.kids[i].tag == tag {
			return p.sd.kids[i]
		}
	}
	return nil
}
func (p kParts) content() *berNode { return p.sd.kids[2] }
func (p kParts) infos() *berNode   { return p.sd.kids[len(p.sd.kids)-1] }
func (p kParts) certs() *berNode {
	if n := p.find(0xa0, false); n != nil {
		return n
	}
	n := &berNode{tag: 0xa0}
	p.sd.kids = append(p.sd.kids[:3:3], append([]*berNode{n}, p.sd.kids[3:]...)...)
	return n
}

// of a SignerInfo: version, issuer and serial number, digest algorithm, [attributes], signature algorithm, signature, ...
func siAttrs(si *berNode) (at int, n *berNode) {
	if si.kids[3].tag == 0xa0 {
		return 3, si.kids[3]
	}
	return 3, nil
}
func siAfter(si *berNode) int { // index of the signature algorithm
	if si.kids[3].tag == 0xa0 {
		return 4
	}
	return 3
}

func one(b []byte) *berNode { return berParse(b)[0] }

func algID(name string) *berNode { return one(derSeq(derOID(p7OID[name]...), derNull())) }

func attrType(n *berNode) string {
	var o asn1.ObjectIdentifier
	_, err := asn1.Unmarshal(n.kids[0].der(), &o)
	must(err)
	return kTypeName(o)
}

func mkAttr(t string, val []byte) *berNode {
	return one(derSeq(derOID(kTypes[t]...), derSet(val)))
}

func (c *kCase) bytes(tok string, rng *rand.Rand, cache map[string][]byte) []byte {
	if b, ok := cache[tok]; ok {
		return b
	}
	var b []byte
	switch tok {
	case "C":
		b = make([]byte, kLens[rng.Intn(len(kLens))])
		rng.Read(b)
		if rng.Intn(6) == 0 {
			copy(b, derSeq(derOctet([]byte("inside"))))
		}
	case "O":
		b = append([]byte{}, c.bytes("C", rng, cache)...)
		if rng.Intn(3) == 0 {
			b = append(b, 0)
		} else {
			b[rng.Intn(len(b))] ^= byte(1 << rng.Intn(8))
		}
	case "E":
		b = []byte{}
	}
	cache[tok] = b
	return b
}

func setContent(p kParts, b []byte, rng *rand.Rand) {
	ci := p.content()
	switch {
	case len(b) == 0 && rng.Intn(2) == 0:
		ci.kids = ci.kids[:1]
	default:
		ci.kids = []*berNode{ci.kids[0], {tag: 0xa0, kids: []*berNode{{tag: 4, val: b}}}}
	}
}

func (c *kCase) tamper(p kParts, t kTam, rng *rand.Rand, cache map[string][]byte) {
	infos := p.infos()
	var si *berNode
	if t.I >= 1 && t.I <= len(infos.kids) {
		si = infos.kids[t.I-1]
	}
	attrs := func() *berNode {
		_, n := siAttrs(si)
		if n == nil {
			n = &berNode{tag: 0xa0}
			si.kids = append(si.kids[:3:3], append([]*berNode{n}, si.kids[3:]...)...)
		}
		return n
	}
	digest := func(tok string) []byte {
		var o asn1.ObjectIdentifier
		_, err := asn1.Unmarshal(si.kids[2].kids[0].der(), &o)
		must(err)
		h := crypto.SHA1
		if o.Equal(p7OID["sha256"]) {
			h = crypto.SHA256
		}
		x := h.New()
		x.Write(c.bytes(tok, rng, cache))
		return derOctet(x.Sum(nil))
	}
	trim := func() { // no empty attribute set
		if _, n := siAttrs(si); n != nil && len(n.kids) == 0 {
			si.kids = append(si.kids[:3:3], si.kids[4:]...)
		}
	}
	switch t.Op {
	case "content":
		setContent(p, c.bytes(t.X, rng, cache), rng)
	case "attrval":
		for _, a := range attrs().kids {
			if attrType(a) == t.X {
				v := map[string][]byte{"ct": derOID(1, 2, 840, 113549, 1, 7, 2), "md": derOctet(bytes.Repeat([]byte{7}, 20)), "time": derUTC("010203040506Z"), "x1": derUTF8("changed")}[t.X]
				a.kids[1] = one(derSet(v))
			}
		}
		trim()
	case "attrdrop":
		n := attrs()
		var k []*berNode
		for _, a := range n.kids {
			if attrType(a) != t.X {
				k = append(k, a)
			}
		}
		n.kids = k
		trim()
	case "attradd":
		n := attrs()
		n.kids = append(n.kids, mkAttr(t.X, derUTF8("v")))
	case "mdof":
		for _, a := range attrs().kids {
			if attrType(a) == "md" {
				a.kids[1] = one(derSet(digest(t.X)))
			}
		}
		trim()
	case "mdfirst":
		n := attrs()
		n.kids = append([]*berNode{mkAttr("md", digest(t.X))}, n.kids...)
	case "attrrev":
		n := attrs()
		for i, j := 0, len(n.kids)-1; i < j; i, j = i+1, j-1 {
			n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
		}
		trim()
	case "attrnone":
		if _, n := siAttrs(si); n != nil {
			n.kids = nil
			trim()
		}
	case "sigflip":
		s := si.kids[siAfter(si)+1]
		s.val = append([]byte{}, s.val...)
		if len(s.val) > 0 {
			s.val[len(s.val)-1-rng.Intn(len(s.val))] ^= 1
		}
	case "signone":
		si.kids[siAfter(si)+1].val = nil
	case "sigof":
		if n := len(infos.kids); n > 1 {
			o := infos.kids[t.I%n]
			si.kids[siAfter(si)+1].val = o.kids[siAfter(o)+1].val
		}
	case "da":
		si.kids[2] = algID(t.X)
	case "dea":
		si.kids[siAfter(si)] = algID(t.X)
	case "ias":
		cs, ok := certByNm[t.X]
		if !ok {
			cs = certSpec{iss: "nobody", serial: 99}
		}
		si.kids[1] = one(derSeq(derName(cs.iss), derInt64(cs.serial)))
	case "unauth":
		if t.X == "high" {
			v := &berNode{tag: 0x9f, high: [][]byte{{0x81, 0x01}, {0x1f}, {0x82, 0x80, 0x00}}[rng.Intn(3)], val: bytes.Repeat([]byte{byte(rng.Intn(256))}, rng.Intn(5))}
			si.kids = append(si.kids, &berNode{tag: 0xa1, kids: []*berNode{mkAttr("md", v.der())}})
			return
		}
		si.kids = append(si.kids, &berNode{tag: 0xa1, kids: []*berNode{mkAttr("md", derOctet([]byte("x")))}})
	case "sigdrop":
		infos.kids = append(infos.kids[:t.I-1:t.I-1], infos.kids[t.I:]...)
	case "sigdup":
		infos.kids = append(infos.kids, one(si.der()))
	case "sigsdrop":
		infos.kids = nil
	case "sigrev":
		k := infos.kids
		for i, j := 0, len(k)-1; i < j; i, j = i+1, j-1 {
			k[i], k[j] = k[j], k[i]
		}
	case "certdrop":
		n := p.certs()
		var k []*berNode
		for _, x := range n.kids {
			if !bytes.Equal(x.der(), certDER[t.X]) {
				k = append(k, x)
			}
		}
		n.kids = k
	case "certfirst":
		n := p.certs()
		n.kids = append([]*berNode{one(certDER[t.X])}, n.kids...)
	case "certlast":
		n := p.certs()
		n.kids = append(n.kids, one(certDER[t.X]))
	case "certrev":
		k := p.certs().kids
		for i, j := 0, len(k)-1; i < j; i, j = i+1, j-1 {
			k[i], k[j] = k[j], k[i]
		}
	default:
		fatal("tampering %s", t.Op)
	}
}

// foreign makes a message by itself, as the specification describes it.
func (c *kCase) foreign(content []byte) []byte {
	var infos, das []byte
	for _, s := range c.M.Signers {
		cs := certByNm[s.Ias]
		data := content
		var attrs []byte
		if len(s.Attrs) > 0 {
			var items [][]byte
			for _, a := range s.Attrs {
				switch a.T {
				case "ct":
					items = append(items, mkAttr("ct", derOID(oidP7Data...)).der())
				case "md":
					items = append(items, mkAttr("md", derOctet(hashOf(strings.Split(a.V, ":")[0], content))).der())
				}
			}
			body := derSetOf(items)
			data, attrs = der(0x31, body), der(0xa0, body)
		}
		das = append(das, algID(s.Da).der()...)
		infos = append(infos, derSeq(derInt64(1), derSeq(derName(cs.iss), derInt64(cs.serial)), algID(s.Da).der(), attrs, algID(s.Dea).der(), derOctet(signRaw(keys[s.Sig.Key], v1Hash[s.Sig.H], false, data)))...)
	}
	var certs []byte
	for _, n := range c.M.Certs {
		certs = append(certs, certDER[n]...)
	}
	return derSeq(derOID(oidP7Signed...), der(0xa0, derSeq(derInt64(1), der(0x31, das), derSeq(derOID(oidP7Data...), der(0xa0, derOctet(content))), der(0xa0, certs), der(0x31, infos))))
}

// made: the signers as they are made, before any tampering
func (c *kCase) made() []kSI {
	if c.Foreign {
		return c.M.Signers
	}
	var out []kSI
	for _, e := range c.Hist {
		if e.E.Op == "signer" && !e.Fails {
			s := kSI{Ias: certByNm[e.E.Cert].iss + fmt.Sprint(certByNm[e.E.Cert].serial), Attrs: []kAttr{{T: "ct"}, {T: "md"}, {T: "time"}}}
			for _, x := range e.E.Extra {
				s.Attrs = append(s.Attrs, kAttr{T: x})
			}
			s.Sig.Key = e.E.Key
			out = append(out, s)
		}
	}
	return out
}

// order: for every signer of the message, which one of the specification it is
func (c *kCase) order(kids []*berNode) []int {
	made := c.made()
	used := make([]bool, len(made))
	var out []int
	if len(kids) != len(made) {
		return nil
	}
	for _, k := range kids {
		n := -1
		for i, s := range made {
			if used[i] || n >= 0 {
				continue
			}
			if c.Foreign {
				n = i
				continue
			}
			var serial int
			asn1.Unmarshal(k.kids[1].kids[1].der(), &serial)
			iss := ""
			for _, cs := range certSpecs {
				if int64(serial) == cs.serial && bytes.Equal(k.kids[1].kids[0].der(), derName(cs.iss)) {
					iss = cs.iss + fmt.Sprint(serial)
				}
			}
			var wt, gt []string
			for _, a := range s.Attrs {
				wt = append(wt, a.T)
			}
			if _, at := siAttrs(k); at != nil {
				for _, a := range at.kids {
					gt = append(gt, attrType(a))
				}
			}
			sort.Strings(wt)
			sort.Strings(gt)
			if iss == s.Ias && strings.Join(wt, " ") == strings.Join(gt, " ") {
				n = i
			}
		}
		if n < 0 {
			return nil
		}
		used[n] = true
		out = append(out, n)
	}
	return out
}

func (c *kCase) build(content []byte, rng *rand.Rand) ([]byte, string) {
	orig := append([]byte{}, content...)
	sd, err := pkcs7.NewSignedData(content)
	if err != nil {
		return nil, "NewSignedData: " + err.Error()
	}
	vals := []interface{}{"text", 12345, []byte{1, 2, 3}, asn1.ObjectIdentifier{1, 2, 3}, true, time.Now(), []int{1, 2}}
	for i, e := range c.Hist {
		switch e.E.Op {
		case "signer":
			var cfg pkcs7.SignerInfoConfig
			for _, x := range e.E.Extra {
				a := pkcs7.Attribute{Type: kTypes[x], Value: vals[rng.Intn(len(vals))]}
				if x == "x1" {
					a.Value = "v"
				}
				if x == "bad" {
					a = pkcs7.Attribute{Type: kTypes["x1"], Value: make(chan int)}
				}
				cfg.ExtraSignedAttributes = append(cfg.ExtraSignedAttributes, a)
			}
			err := sd.AddSigner(certX509[e.E.Cert], privOf(e.E.Key), cfg)
			if (err != nil) != e.Fails {
				return nil, fmt.Sprintf("call %d, AddSigner: specified an error: %v, got %v", i+1, e.Fails, err)
			}
		case "cert":
			sd.AddCertificate(certX509[e.E.Cert])
		case "detach":
			sd.Detach()
		case "finish":
			if _, err := sd.Finish(); err != nil {
				return nil, "Finish: " + err.Error()
			}
		}
	}
	out, err := sd.Finish()
	if err != nil {
		return nil, "Finish: " + err.Error()
	}
	if !bytes.Equal(orig, content) {
		return nil, "the content given was changed"
	}
	return out, ""
}

func (c *kCase) run() (what string) {
	rng := rand.New(rand.NewSource(c.Seed))
	cache := map[string][]byte{}
	g := guard(callLimit, func() { what = c.run1(rng, cache) })
	if g.panicked != "" || g.hang {
		return "panic or hang: " + g.panicked
	}
	return
}

func (c *kCase) run1(rng *rand.Rand, cache map[string][]byte) string {
	content := c.bytes(c.C0, rng, cache)
	var msg []byte
	if c.Foreign {
		msg = c.foreign(content)
	} else {
		var d string
		if msg, d = c.build(content, rng); d != "" {
			return d
		}
	}
	root := one(msg)
	p := kParts{root, root.kids[1].kids[0]}
	// signers are a set: put them into the order of the specification
	ord := c.order(p.infos().kids)
	if len(ord) != len(p.infos().kids) {
		return "the message does not have the signers specified"
	}
	asMade := len(c.Tam) == 0 || c.Tam[0].Op == "give"
	if !asMade {
		kids := make([]*berNode, len(ord))
		for i, n := range ord {
			kids[n] = p.infos().kids[i]
		}
		p.infos().kids = kids
	}
	var given []byte
	isGiven := false
	for _, t := range c.Tam {
		if t.Op == "give" {
			given, isGiven = c.bytes(t.X, rng, cache), true
			continue
		}
		c.tamper(p, t, rng, cache)
	}
	if ci := p.content(); len(ci.kids) > 1 && len(ci.kids[1].kids) == 1 {
		ci.kids[1].kids[0].long = true
	}
	if c.Broken {
		return c.broken(p, rng)
	}
	enc := root.enc(c.Enc, 0)
	p7, err := pkcs7.Parse(enc)
	if err != nil {
		return "Parse: " + err.Error()
	}
	if isGiven {
		p7.Content = given
	}
	want := c.bytes(c.M.Content, rng, cache)
	if !bytes.Equal(p7.Content, want) {
		return fmt.Sprintf("content: specified %d bytes, got %d (or other ones)", len(want), len(p7.Content))
	}
	var certs []string
	for _, x := range p7.Certificates {
		certs = append(certs, certNm(x))
	}
	if strings.Join(certs, " ") != strings.Join(c.M.Certs, " ") {
		return fmt.Sprintf("certificates: specified %v, got %v", c.M.Certs, certs)
	}
	if len(p7.Signers) != len(c.M.Signers) {
		return fmt.Sprintf("signers: specified %d, got %d", len(c.M.Signers), len(p7.Signers))
	}
	err = p7.Verify()
	if (err == nil) != c.Ver {
		return fmt.Sprintf("specified to verify: %v, got: %v", c.Ver, err)
	}
	only := "none"
	if o := p7.GetOnlySigner(); o != nil {
		only = certNm(o)
	}
	if only != c.Only {
		return fmt.Sprintf("only signer: specified %s, got %s", c.Only, only)
	}
	infos := p7.GetSignerInfos()
	for t, reads := range c.Reads {
		if len(infos) > 1 && asMade {
			break
		}
		var v asn1.RawValue
		if err := p7.UnmarshalSignedAttribute(kTypes[t], &v); (err == nil) != reads {
			return fmt.Sprintf("reading attribute %s: specified %v, got %v", t, reads, err)
		}
	}
	if asMade {
		all := append([]pkcs7.SignerInfo{}, infos...)
		for i, n := range ord {
			infos[n] = all[i]
		}
	}
	for i, si := range infos {
		w := c.M.Signers[i]
		var wt, gt []string
		n := map[string]int{}
		for _, a := range w.Attrs {
			wt = append(wt, a.T)
			n[a.T]++
		}
		for _, a := range si.AuthenticatedAttributes {
			gt = append(gt, kTypeName(a.Type))
		}
		sort.Strings(wt)
		sort.Strings(gt)
		if strings.Join(wt, " ") != strings.Join(gt, " ") {
			return fmt.Sprintf("signer %d: specified attributes %v, got %v", i+1, wt, gt)
		}
		for t := range kTypes {
			var v asn1.RawValue
			if err := si.UnmarshalSignedAttribute(kTypes[t], &v); (err == nil) != (n[t] == 1) {
				return fmt.Sprintf("signer %d: attribute %s appears %d times, reading it: %v", i+1, t, n[t], err)
			}
		}
		if w.Unauth != (len(si.UnauthenticatedAttributes) == 1) {
			return fmt.Sprintf("signer %d: %d unauthenticated attributes", i+1, len(si.UnauthenticatedAttributes))
		}
		if ok := fmt.Sprint(si.DigestAlgorithm.Algorithm) == fmt.Sprint(asn1.ObjectIdentifier(p7OID[w.Da])); !ok {
			return fmt.Sprintf("signer %d: digest algorithm %v", i+1, si.DigestAlgorithm.Algorithm)
		}
		if ok := fmt.Sprint(si.DigestEncryptionAlgorithm.Algorithm) == fmt.Sprint(asn1.ObjectIdentifier(p7OID[w.Dea])); !ok {
			return fmt.Sprintf("signer %d: signature algorithm %v", i+1, si.DigestEncryptionAlgorithm.Algorithm)
		}
		serial := int64(99)
		if cs, ok := certByNm[w.Ias]; ok {
			serial = cs.serial
		}
		if si.IssuerAndSerialNumber.SerialNumber.Int64() != serial {
			return fmt.Sprintf("signer %d: serial number %v", i+1, si.IssuerAndSerialNumber.SerialNumber)
		}
		if c.Ver && len(w.Attrs) > 0 { // what was signed is what is handed out
			b, err := si.MarshalAuthenticatedAttributes()
			if err != nil {
				return fmt.Sprintf("signer %d: %v", i+1, err)
			}
			var x *x509.Certificate
			for _, n := range c.M.Certs {
				if certByNm[n].iss == certByNm[w.Ias].iss && certByNm[n].serial == serial {
					x = certX509[n]
					break
				}
			}
			alg := map[string]x509.SignatureAlgorithm{"sha1rsa": x509.SHA1WithRSA, "sha1ec": x509.ECDSAWithSHA1}[w.Dea]
			if rev := len(c.Tam) > 0; alg != 0 && !rev {
				if err := x.CheckSignature(alg, b, si.EncryptedDigest); err != nil {
					return fmt.Sprintf("signer %d: the attributes handed out are not those signed: %v", i+1, err)
				}
			}
		}
	}
	return ""
}

// broken: nothing that could be taken for a signed message
func (c *kCase) broken(p kParts, rng *rand.Rand) string {
	root := p.root
	switch c.Enc {
	case "typedata":
		root.kids[0] = one(derOID(oidP7Data...))
	case "typeenv":
		root.kids[0] = one(derOID(1, 2, 840, 113549, 1, 7, 3))
	case "typeother":
		o := [][]int{{1, 2, 840, 113549, 1, 7, 4}, {1, 2, 840, 113549, 1, 7, 5}, {1, 2, 840, 113549, 1, 7, 2, 1}, {1, 2, 840, 113549, 1, 7}, {1, 2, 3}}
		root.kids[0] = one(derOID(o[rng.Intn(len(o))]...))
	case "noeoc":
		root.open = true
	case "halfeoc":
		root.open, root.end = true, []byte{0}
	case "primindef":
		n := p.content().kids[0] // an object identifier
		n.open, n.end = true, []byte{0, 0}
	default: // cut, so many levels down
		n := root
		for i := 0; i < int(c.Enc[3]-'0'); i++ {
			if l := n.kids[len(n.kids)-1]; len(l.kids) > 0 {
				n = l
			}
		}
		last := n.kids[len(n.kids)-1].enc("der", 0)
		n.cut = 1 + rng.Intn(len(last)-1)
	}
	p7, err := pkcs7.Parse(root.enc("der", 0))
	if err == nil {
		err = p7.Verify()
	}
	if err == nil {
		return "taken for a signed message: " + c.Enc
	}
	return ""
}

// degenerate messages hold certificates only
func degenerate(rng *rand.Rand) string {
	names := []string{"rsaA", "ecA", "leafRA", "dsaA", "interEA"}
	n := rng.Intn(4)
	var want []string
	var b []byte
	for i := 0; i < n; i++ {
		c := names[rng.Intn(len(names))]
		want = append(want, c)
		b = append(b, certDER[c]...)
	}
	out, err := pkcs7.DegenerateCertificate(b)
	if err != nil {
		return err.Error()
	}
	for _, form := range []string{"der", "indef", "long"} {
		p7, err := pkcs7.Parse(one(out).enc(form, 0))
		if err != nil {
			return fmt.Sprintf("%v in form %s: %v", want, form, err)
		}
		var got []string
		for _, x := range p7.Certificates {
			got = append(got, certNm(x))
		}
		if strings.Join(want, " ") != strings.Join(got, " ") || p7.Verify() == nil || p7.GetOnlySigner() != nil || len(p7.Content) != 0 {
			return fmt.Sprintf("certificates %v in form %s: got %v, %d bytes of content, verifies: %v", want, form, got, len(p7.Content), p7.Verify() == nil)
		}
	}
	return ""
}

func pkcs7Cfg(ev, tam int, mode, mutant string, emit bool) string {
	s := fmt.Sprintf("SPECIFICATION Spec\nCONSTANT MaxEv = %d\nCONSTANT MaxTamper = %d\nCONSTANT Mode = %q\nCONSTANT Mutant = %q\nINVARIANT Sound\nINVARIANT Complete\nINVARIANT Noticed\nCHECK_DEADLOCK FALSE\n", ev, tam, mode, mutant)
	if emit {
		s += "INVARIANT Emit\n"
	}
	return s
}

func pkcs7Engine(r *report, prop, tier string, seed int) {
	for m, inv := range map[string]string{"nodigest": "Sound", "noattrs": "Sound", "anysigner": "Sound", "nosigners": "Sound"} {
		mustViolate("Pkcs7", pkcs7Cfg(1, 1, "tamper", m, false), inv, seed)
	}
	type plan struct {
		mode    string
		ev, tam int
		one     uint64 // of how many cases one is replayed
	}
	plans := []plan{{"build", 2, 0, 1}, {"tamper", 0, 1, 1}, {"foreign", 0, 0, 1}}
	if tier == "thorough" {
		plans = []plan{{"build", 3, 0, 1}, {"tamper", 0, 2, 4}, {"foreign", 0, 0, 1}}
	}
	for _, pl := range plans {
		var lines []string
		st := runTLC("Pkcs7", pkcs7Cfg(pl.ev, pl.tam, pl.mode, "none", true), seed, nil, nil, func(s string) {
			if caseHash(s, seed)%pl.one == 0 {
				lines = append(lines, s)
			}
		})
		r.spec.Generated += st.Generated
		r.spec.Distinct += st.Distinct
		sort.Strings(lines)
		parallel(len(lines), func(i int) {
			var c kCase
			if err := json.Unmarshal([]byte(lines[i]), &c); err != nil {
				fatal("pkcs7: %v: %.300s", err, lines[i])
			}
			c.Seed = int64(seed)*1000003 + int64(i)
			if d := c.run(); d != "" {
				r.add(violation{Prop: prop, Engine: "pkcs7", What: d, Extra: c})
			} else if i%(len(lines)/3+1) == 1 {
				r.sample(c)
			}
			r.note(fmt.Sprintf("%s_verified_%v", pl.mode, c.Ver), 1)
			r.mu.Lock()
			r.calls++
			r.mu.Unlock()
		})
	}
	for i := 0; i < 60; i++ {
		rng := rand.New(rand.NewSource(int64(seed*1000 + i)))
		if d := degenerate(rng); d != "" {
			r.add(violation{Prop: prop, Engine: "degenerate", What: d, Extra: seed*1000 + i})
		}
		r.calls++
	}
}

func init() {
	engines["C27"] = pkcs7Engine
	replayers["pkcs7"] = func(v violation) string {
		var c kCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		return c.run()
	}
	replayers["degenerate"] = func(v violation) string {
		n, _ := v.Extra.(float64)
		return degenerate(rand.New(rand.NewSource(int64(n))))
	}
}

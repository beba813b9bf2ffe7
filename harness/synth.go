package main

// Turns an abstract APK into real bytes with real cryptography.

import (
	"bytes"
	"compress/flate"
	"crypto"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"strconv"
	"strings"
)

type algoInfo struct {
	id   uint32
	dig  string // c256 c512 v256, "" unsupported
	typ  string
	hash crypto.Hash
	pss  bool
}

var algos = map[string]algoInfo{
	"pss256": {0x0101, "c256", "rsa", crypto.SHA256, true},
	"pss512": {0x0102, "c512", "rsa", crypto.SHA512, true},
	"rsa256": {0x0103, "c256", "rsa", crypto.SHA256, false},
	"rsa512": {0x0104, "c512", "rsa", crypto.SHA512, false},
	"ec256":  {0x0201, "c256", "ec", crypto.SHA256, false},
	"ec512":  {0x0202, "c512", "ec", crypto.SHA512, false},
	"dsa256": {0x0301, "c256", "dsa", crypto.SHA256, false},
	"vrsa":   {0x0421, "v256", "rsa", crypto.SHA256, false},
	"vec":    {0x0423, "v256", "ec", crypto.SHA256, false},
	"vdsa":   {0x0425, "v256", "dsa", crypto.SHA256, false},
	"unkX":   {0x9999, "", "", 0, false},
	"unkY":   {0x0105, "", "", 0, false},
	"unkZ":   {0, "", "", 0, false},
}

var algoName = func() map[uint32]string {
	m := map[uint32]string{}
	for n, a := range algos {
		m[a.id] = n
	}
	return m
}()

var digRank = map[string]int{"c256": 1, "v256": 2, "c512": 3}
var digID = map[string]uint32{"c256": 1, "c512": 2, "v256": 3}

var blockIDs = map[string]uint32{
	"v2": 0x7109871a, "v3": 0xf05368c0, "v31": 0x1b93ad61, "stamp": 0x6dff800d, "frost": 0x2146444e,
	"pad": 0x42726577, "unkA": 0x11223344, "unkB": 0x55667788, "meituan": 0x71777777,
	"depmeta": 0x504b4453, "stampv1": 0x2b09189e,
}

var blockName = func() map[uint32]string {
	m := map[uint32]string{}
	for n, a := range blockIDs {
		m[a] = n
	}
	return m
}()

// --- content tokens ---

func content(tok string) []byte {
	switch tok {
	case "empty":
		return nil
	case "dexhdr":
		return []byte("dex\n035\x00 not really")
	}
	n, seed := 100, tok
	if strings.HasPrefix(tok, "n:") { // n:<size>:<seed>
		f := strings.SplitN(tok, ":", 3)
		n, _ = strconv.Atoi(f[1])
		seed = f[2]
	}
	out := make([]byte, 0, n+32)
	h := sha256.Sum256([]byte(seed))
	x := binary.LittleEndian.Uint64(h[:8]) | 1
	for len(out) < n {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out = append(out, byte(x), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
	}
	return out[:n]
}

// --- zip ---

type zipEnt struct {
	name string
	data []byte
	z    string
	dir  bool
}

// realName: the specification's strings are ASCII.
func realName(n string) string { return strings.ReplaceAll(n, "~uni~", "\u4f60\u597d\u00fc\U0001f600") }

func buildZip(prefix []byte, ents []zipEnt, lastComment []byte) (local, cd []byte, offs []int) {
	var lb, cb bytes.Buffer
	lb.Write(prefix)
	for i, e := range ents {
		off := lb.Len()
		offs = append(offs, off)
		name := realName(e.name)
		if e.dir && !strings.HasSuffix(name, "/") {
			name += "/"
		}
		method := uint16(0)
		comp := e.data
		if e.z == "deflate" {
			method = 8
			var b bytes.Buffer
			w, _ := flate.NewWriter(&b, 6)
			w.Write(e.data)
			w.Close()
			comp = b.Bytes()
		}
		crc := crc32.ChecksumIEEE(e.data)
		flags := uint16(0)
		for _, c := range name {
			if c > 127 {
				flags = 0x800
			}
		}
		common := le(uint16(20), flags, method, uint16(0), uint16(0x5421), crc, uint32(len(comp)), uint32(len(e.data)), uint16(len(name)), uint16(0))
		lb.Write(le(uint32(0x04034b50)))
		lb.Write(common)
		lb.WriteString(name)
		lb.Write(comp)
		var com []byte
		if i == len(ents)-1 {
			com = lastComment
		}
		ver := uint16(20)
		if e.z == "storedir" {
			ver = 3<<8 | 20
		}
		cb.Write(le(uint32(0x02014b50), ver))
		cb.Write(common)
		ext := uint32(0)
		if e.dir {
			ext = 0x10
		}
		if e.z == "storedir" { // a file whose attributes call it a directory
			ext = 0x10 | 0x41ed<<16
		}
		cb.Write(le(uint16(len(com)), uint16(0), uint16(0), ext, uint32(off)))
		cb.WriteString(name)
		cb.Write(com)
	}
	return lb.Bytes(), cb.Bytes(), offs
}

// --- content digests (independent implementation) ---

func chunked(h crypto.Hash, secs ...[]byte) []byte {
	var sums []byte
	n := 0
	for _, s := range secs {
		for len(s) > 0 {
			c := s
			if len(c) > 1<<20 {
				c = c[:1<<20]
			}
			s = s[len(c):]
			hh := h.New()
			hh.Write([]byte{0xa5})
			hh.Write(le(uint32(len(c))))
			hh.Write(c)
			sums = hh.Sum(sums)
			n++
		}
	}
	hh := h.New()
	hh.Write([]byte{0x5a})
	hh.Write(le(uint32(n)))
	hh.Write(sums)
	return hh.Sum(nil)
}

func verity(secs ...[]byte) []byte {
	data := bytes.Join(secs, nil)
	total := len(data)
	salt := make([]byte, 8)
	level := data
	for {
		for len(level)%4096 != 0 {
			level = append(level[:len(level):len(level)], make([]byte, 4096-len(level)%4096)...)
		}
		var next []byte
		for i := 0; i < len(level); i += 4096 {
			s := sha256.Sum256(append(append([]byte{}, salt...), level[i:i+4096]...))
			next = append(next, s[:]...)
		}
		if len(next) <= 4096 {
			page := make([]byte, 4096)
			copy(page, next)
			root := sha256.Sum256(append(append([]byte{}, salt...), page...))
			return append(root[:], le(uint64(total))...)
		}
		level = next
	}
}

// --- builder ---

type built struct {
	apk    *Apk
	data   []byte
	sbOff  int
	sbEnd  int // = central directory offset
	eocdAt int
	cdSize int
	offs   []int
	ents   []zipEnt
	blocks map[string][]byte // last payload per block id
	mfRaw  []byte
	dcache map[string][]byte
	before []byte
	cd     []byte
	eocd   []byte // with normalised offset
	frost  []byte
	roles  map[string][2]int
	hook   func(role string, b []byte) []byte // changes a part before it is used (and signed)
}

func (b *built) hk(role string, p []byte) []byte {
	if b.hook == nil {
		return p
	}
	return b.hook(role, p)
}

func lp(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := le(uint32(n))
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func bump(b []byte, by uint32) []byte { // enlarge the length prefix beyond what follows
	b = append([]byte{}, b...)
	binary.LittleEndian.PutUint32(b, binary.LittleEndian.Uint32(b)+by)
	return b
}

func (b *built) good(dig string) []byte {
	if d, ok := b.dcache[dig]; ok {
		return d
	}
	var d []byte
	switch dig {
	case "c256":
		d = chunked(crypto.SHA256, b.before, b.cd, b.eocd)
	case "c512":
		d = chunked(crypto.SHA512, b.before, b.cd, b.eocd)
	case "v256":
		d = verity(b.before, b.cd, b.eocd)
	}
	b.dcache[dig] = d
	return d
}

func (b *built) digest(d Dig) []byte {
	dig := algos[d.A].dig
	if dig == "" {
		return []byte("0123456789abcdef0123456789abcdef")
	}
	g := b.good(dig)
	switch d.D {
	case "good":
		return g
	case "bad", "bad2":
		x := append([]byte{}, g...)
		x[0] ^= 0x55
		if d.D == "bad2" {
			x[0] ^= 0x11
		}
		return x
	case "badtail": // differs in the last byte only
		x := append([]byte{}, g...)
		x[len(x)-1] ^= 1
		return x
	case "short":
		return g[:len(g)-1]
	case "empty":
		return nil
	}
	panic("digest " + d.D)
}

var otherData = []byte("some other data that was signed once with the same key")

func signAlgo(key, m string, data []byte) []byte {
	k := keys[key]
	a, ok := algos[m]
	if k == nil || !ok || a.typ != k.typ {
		if k == nil {
			return []byte("no such key")
		}
		// an algorithm the key cannot do (or an unknown one): some well formed signature of that key
		return signRaw(k, crypto.SHA256, false, append([]byte("mismatch "+m), data...))
	}
	return signRaw(k, a.hash, a.pss, data)
}

func makeSig(s Sig, data []byte) []byte {
	if s.O == "other" {
		data = otherData
	}
	switch s.F {
	case "garbage":
		return []byte("\x30\x06\x02\x01\x01\x02\x01\x01")
	case "garbage2":
		return []byte{0xff, 1, 2, 3}
	case "one": // a SEQUENCE of a single INTEGER
		return []byte{0x30, 3, 2, 1, 1}
	case "none":
		return nil
	case "trail", "zero", "neg", "lead", "three":
		return oddSig(s.F, keys[s.K], signAlgo(s.K, s.M, data))
	}
	return signAlgo(s.K, s.M, data)
}

func sigRecord(s Sig, data []byte) []byte {
	if s.F == "short" {
		return lp(le(algos[s.A].id), []byte{1, 2})
	}
	sig := lp(makeSig(s, data))
	if s.F == "badlen" {
		sig = bump(sig, 1000)
	}
	rec := lp(le(algos[s.A].id), sig)
	if s.F == "trunc" {
		rec = bump(rec, 100000)
	}
	return rec
}

func certBytes(n string) []byte {
	if n == "junk" {
		return []byte("not a certificate")
	}
	if d, ok := certDER[n]; ok {
		return d
	}
	panic("cert " + n)
}

func (b *built) makeNode(n Node) []byte {
	signed := b.hk("node", append(lp(b.hk("cert", certBytes(n.C))), le(algos[n.PA].id)...))
	switch n.F {
	case "sdcut0":
		signed = nil
	case "sdcut1":
		signed = signed[:len(signed)-4]
	case "sdcut2":
		signed = signed[:len(signed)-1]
	case "sdtail":
		signed = append(signed[:len(signed):len(signed)], 1, 0, 0)
	}
	data := signed
	if n.O == "other" {
		data = otherData
	}
	var sig []byte
	if n.K == "" {
		sig = []byte("first")
	} else {
		sig = signAlgo(n.K, n.M, data)
	}
	sd := lp(signed)
	if n.F == "sdTrunc" {
		sd = bump(sd, 100000)
	}
	rec := lp(sd, le(uint32(n.Fl), algos[n.NA].id), lp(sig))
	switch n.F {
	case "trunc":
		rec = bump(rec, 100000)
	case "cut0":
		rec = lp()
	case "cut1":
		rec = lp(sd)
	case "cut2":
		rec = lp(sd, le(uint32(n.Fl)))
	case "cut3":
		rec = lp(sd, le(uint32(n.Fl), algos[n.NA].id)[:7])
	case "cut4":
		rec = lp(sd, le(uint32(n.Fl), algos[n.NA].id))
	case "tail":
		rec = lp(sd, le(uint32(n.Fl), algos[n.NA].id), lp(sig), []byte{1, 2, 3, 4, 5})
	}
	return rec
}

func schemeNum(t int) uint32 { return uint32(t) }

func (b *built) makeAttr(a Attr) []byte {
	var id uint32
	var pl, nodes []byte
	switch a.T {
	case "strip":
		id, pl = 0xbeeff00d, le(int32(a.V))
	case "rotmin":
		id, pl = 0x559f8b02, le(int32(a.V))
	case "lin":
		id = 0x3ba06f8c
		if a.Ver != -1 { // -1: attribute without payload
			pl = le(int32(a.Ver))
			for _, n := range a.Nodes {
				nodes = append(nodes, b.makeNode(n)...)
			}
		}
	case "slin":
		id = 0x9d6303f7
		pl = le(int32(a.Ver))
		for _, n := range a.Nodes {
			nodes = append(nodes, b.makeNode(n)...)
		}
	case "time":
		id, pl = 0xe43c5946, le(int64(a.V))
	case "dev":
		id = 0xc2a6b3ba
	case "unk":
		id, pl = 0x12345678+uint32(a.V), []byte("whatever")
	case "short": // no whole identifier
		return lp([]byte{1, 2, 3}[:a.V&3])
	case "trunc":
		return bump(lp(le(uint32(0x12345678))), 100000)
	default:
		panic("attr " + a.T)
	}
	if len(nodes) > 0 {
		pl = append(pl, b.hk("nodes", nodes)...)
	}
	pl = b.hk("attr", pl)
	if a.S && len(pl) > 0 {
		pl = pl[:len(pl)-1]
	}
	return lp(le(id), pl)
}

func (b *built) makeSigner(s Signer, v3 bool) []byte {
	var digs, certs, attrs []byte
	for _, d := range s.Digs {
		var rec []byte
		switch d.F {
		case "short":
			rec = lp(le(algos[d.A].id))
		default:
			v := lp(b.digest(d))
			if d.F == "badlen" {
				v = bump(v, 1000)
			}
			rec = lp(le(algos[d.A].id), v)
			if d.F == "trunc" {
				rec = bump(rec, 100000)
			}
		}
		digs = append(digs, rec...)
	}
	for _, c := range s.Certs {
		certs = append(certs, lp(b.hk("cert", certBytes(c)))...)
	}
	for _, a := range s.Attrs {
		attrs = append(attrs, b.makeAttr(a)...)
	}
	fd, fc, fa := lp(b.hk("digests", digs)), lp(b.hk("certs", certs)), lp(b.hk("attrs", attrs))
	switch s.Fr {
	case "digsTrunc":
		fd = bump(fd, 100000)
	case "certsTrunc":
		fc = bump(fc, 100000)
	case "attrsTrunc":
		fa = bump(fa, 100000)
	case "noattrs":
		fa = nil
	}
	sd := append(append([]byte{}, fd...), fc...)
	if v3 {
		sd = append(sd, le(int32(s.Smin), int32(s.Smax))...)
	}
	sd = append(sd, fa...)
	// what is signed ends early
	switch n := len(fd) + len(fc); s.Fr {
	case "sdcut0":
		sd = sd[:0]
	case "sdcut1":
		sd = sd[:len(fd)]
	case "sdcut2":
		sd = sd[:n]
	case "sdcut3":
		sd = sd[:min(n+4, len(sd)-1)]
	case "sdcut4":
		sd = sd[:len(sd)-len(fa)+3]
	}
	if s.Trail && s.Fr == "ok" {
		sd = append(sd, 0, 0, 0, 0)
	}
	sd = b.hk("signedData", sd)
	var sigs []byte
	for _, g := range s.Sigs {
		sigs = append(sigs, sigRecord(g, sd)...)
	}
	sigs = b.hk("sigs", sigs)
	var pub []byte
	if s.Pub == "junk" {
		pub = []byte("not a key")
	} else {
		pub = keys[s.Pub].spki
	}
	pub = b.hk("pub", pub)
	fsd, fsi, fp := lp(sd), lp(sigs), lp(pub)
	switch s.Fr {
	case "sdTrunc":
		fsd = bump(fsd, 1<<24)
	case "sigsTrunc":
		fsi = bump(fsi, 1<<24)
	case "pubTrunc":
		fp = bump(fp, 1<<24)
	}
	out := append([]byte{}, fsd...)
	if v3 {
		out = append(out, le(int32(s.Omin), int32(s.Omax))...)
	}
	out = append(out, fsi...)
	out = append(out, fp...)
	// the signer ends early
	switch n := len(fsd); s.Fr {
	case "cut0":
		out = out[:0]
	case "cut1":
		out = out[:n]
	case "cut2":
		out = out[:n+2]
	case "cut3":
		out = out[:n+4]
	case "cut4":
		out = out[:len(out)-len(fp)-len(fsi)]
	case "cut5":
		out = out[:len(out)-len(fp)]
	case "cut6":
		out = out[:len(out)-1]
	}
	if s.Trail && s.Fr == "ok" {
		out = append(out, 9, 9)
	}
	rec := lp(b.hk("signer", out))
	if s.Fr == "signerTrunc" {
		rec = bump(rec, 1<<24)
	}
	return rec
}

// stampDigests: what a source stamp for the given scheme signs.
func (b *built) stampDigests(scheme int) []byte {
	vals := map[uint32][]byte{}
	id := map[int]string{2: "v2", 3: "v3", 31: "v31"}[scheme]
	if id == "" {
		h := []byte{}
		if b.mfRaw != nil {
			s := sha256.Sum256(b.mfRaw)
			h = s[:]
		}
		vals[4] = h
	}
	for _, p := range b.apk.Sb.Pairs {
		if p.ID != id || id == "" {
			continue
		}
		vals = map[uint32][]byte{}
		for _, s := range p.Signers {
			best := ""
			for _, g := range s.Sigs {
				if d := algos[g.A].dig; d != "" && (best == "" || digRank[d] > digRank[algos[best].dig]) {
					best = g.A
				}
			}
			for _, d := range s.Digs {
				if d.A == best && best != "" {
					vals[digID[algos[best].dig]] = b.digest(d)
				}
			}
		}
		break // of several the first one counts
	}
	var out []byte
	for i := uint32(1); i <= 4; i++ {
		if v, ok := vals[i]; ok {
			out = append(out, lp(le(i), lp(v))...)
		}
	}
	return out
}

func (b *built) makeStamp(s *Stamp) []byte {
	cert := lp(b.hk("cert", certBytes(s.Cert)))
	if s.Fr == "certTrunc" {
		cert = bump(cert, 1<<24)
	}
	var schemes []byte
	for _, sc := range s.Schemes {
		var sigs []byte
		data := b.stampDigests(sc.ID)
		for _, g := range sc.Sigs {
			sigs = append(sigs, sigRecord(g, data)...)
		}
		schemes = append(schemes, lp(le(int32(sc.ID)), lp(sigs))...)
	}
	fs := lp(b.hk("stampSchemes", schemes))
	if s.Fr == "schemesTrunc" {
		fs = bump(fs, 1<<24)
	}
	out := append(append([]byte{}, cert...), fs...)
	if s.HasAttrs {
		var at []byte
		for _, a := range s.Attrs {
			at = append(at, b.makeAttr(a)...)
		}
		ad := b.hk("stampAttrs", lp(at))
		if s.Fr == "attrListTrunc" {
			ad = bump(ad, 1<<24)
		}
		var sigs []byte
		for _, g := range s.Asigs {
			sigs = append(sigs, sigRecord(g, ad)...)
		}
		fa, fg := lp(ad), lp(sigs)
		if s.Fr == "attrTrunc" {
			fa = bump(fa, 1<<24)
		}
		if s.Fr == "asigTrunc" {
			fg = bump(fg, 1<<24)
		}
		out = append(out, fa...)
		out = append(out, fg...)
	}
	switch s.Fr { // bytes after everything else, or in place of the attributes
	case "rest1":
		out = append(out, 0)
	case "rest4":
		out = append(out, le(uint32(0))...)
	case "rest8":
		out = append(out, le(uint64(0))...)
	}
	top := lp(b.hk("stamp", out))
	if s.Fr == "topTrunc" {
		top = bump(top, 1<<24)
	}
	return top
}

func varint(v int) []byte {
	var out []byte
	u := uint32(v)
	for {
		if u < 0x80 {
			return append(out, byte(u))
		}
		out = append(out, byte(u)|0x80)
		u >>= 7
	}
}

// frostHash: over content before the block, the v2 block, the central directory and the normalised end record.
func (b *built) frostHash() []byte {
	h := sha256.New()
	h.Write(b.before)
	if v2, ok := b.blocks["v2"]; ok && len(v2) != 0 {
		h.Write(le(uint32(blockIDs["v2"])))
		h.Write(v2)
	}
	h.Write(b.cd)
	h.Write(b.eocd)
	return h.Sum(nil)
}

func (b *built) makeFrost(f *Frost) []byte {
	proto := []byte("\x08\x01\x10\x00 protobuf info")
	hash := b.frostHash()
	var meta []byte
	var ends []int
	for _, e := range f.Entries {
		h := hash
		switch e.Hash {
		case "bad":
			h = append([]byte{}, hash...)
			h[31] ^= 1
		case "short":
			h = hash[:31]
		case "long":
			h = append(append([]byte{}, hash...), 0)
		}
		rec := append(varint(e.Dis), varint(e.Key)...)
		rec = append(rec, h...)
		meta = append(meta, varint(len(rec))...)
		meta = append(meta, rec...)
		ends = append(ends, len(meta))
	}
	pm := append(varint(len(proto)), proto...)
	ms := varint(len(meta))
	switch f.Fr {
	case "protobig":
		pm = append(varint(len(proto)+5000), proto...)
	case "longvar":
		pm = append([]byte{byte(len(proto)) | 0x80, 0x80, 0x80, 0x80, 0}, proto...)
		ms = []byte{byte(len(meta)) | 0x80, byte(len(meta)>>7) | 0x80, 0x80, 0}
	case "neg":
		pm = append(varint(-len(proto)), proto...)
	case "metabig":
		ms = varint(len(meta) + 5000)
	case "metazero":
		ms = varint(0)
	case "metaneg":
		ms = varint(-1)
	case "metasmall":
		ms = varint(len(meta) - 1)
	}
	meta = b.hk("frostMeta", meta)
	head := append(append([]byte{}, pm...), ms...)
	body := append(append([]byte{}, head...), meta...)
	var sigs []byte
	for i, e := range f.Entries {
		if ends[i] > len(meta) {
			ends[i] = len(meta)
		}
		data := body[:len(head)+ends[i]]
		if e.O == "other" {
			data = otherData
		} else if e.O == "all" { // over the whole metadata rather than up to this entry
			data = body
		}
		var sg []byte
		switch e.F {
		case "garbage":
			sg = []byte{0x30, 6, 2, 1, 1, 2, 1, 1}
		case "missing":
			continue
		default:
			sg = signRaw(keys[e.K], crypto.SHA256, false, data)
			if e.F == "trail" {
				sg = append(append([]byte{}, sg...), 0)
			}
		}
		sigs = append(sigs, varint(len(sg))...)
		sigs = append(sigs, sg...)
	}
	if f.Fr == "gap" {
		body = append(body, make([]byte, 40)...)
	}
	sz := varint(len(body))
	if f.Fr == "sizebig" {
		sz = varint(len(body) + 9000)
	}
	out := append(append([]byte{}, sz...), body...)
	switch n := len(sigs); {
	case f.Fr == "sigsbig":
		out = append(out, varint(n+1)...)
	case f.Fr == "sigssmall" && n > 0:
		out = append(out, varint(n-1)...)
	case f.Fr == "sigsmore":
		out = append(out, varint(-n)...)
	default:
		out = append(out, varint(n)...)
	}
	out = append(out, sigs...)
	switch f.Fr {
	case "trunc":
		out = out[:len(out)/2]
	case "tail":
		out = append(out, 1, 2, 3)
	}
	return out
}

func (b *built) makePair(p Pair) []byte {
	switch p.Fr {
	case "empty":
		return nil
	case "listTrunc":
		return []byte{255, 255, 255, 0, 1, 2}
	}
	switch p.ID {
	case "v2", "v3", "v31":
		var list []byte
		for _, s := range p.Signers {
			list = append(list, b.makeSigner(s, p.ID != "v2")...)
		}
		if p.Fr == "tail" { // a length that is cut short after the last signer
			list = append(list, 1, 0)
		}
		return b.hk("block", lp(b.hk("signers", list)))
	case "stamp":
		return b.hk("block", b.makeStamp(p.Stamp))
	case "frost":
		return b.hk("frost", b.makeFrost(p.Frost))
	case "pad":
		return make([]byte, 100+len(p.Data))
	}
	return []byte("data of " + p.ID + p.Data)
}

func prefixBytes(t string) []byte {
	switch t {
	case "none":
		return nil
	case "dex":
		return append([]byte("dex\n035\x00"), bytes.Repeat([]byte{7}, 104)...)
	case "dex2": // same four magic bytes, another version
		return append([]byte("dex\n039\x00"), bytes.Repeat([]byte{3}, 40)...)
	case "nodex": // nearly
		return append([]byte("dex\r035\x00"), bytes.Repeat([]byte{7}, 104)...)
	case "dexlate": // magic not at the start
		return append([]byte("\x00dex\n035\x00"), bytes.Repeat([]byte{7}, 104)...)
	case "junk":
		return bytes.Repeat([]byte("#!junk"), 20)
	}
	panic("prefix " + t)
}

func build(a *Apk) *built { return buildHooked(a, nil) }

func buildHooked(a *Apk, hook func(role string, b []byte) []byte) *built {
	b := &built{hook: hook, apk: a, dcache: map[string][]byte{}, blocks: map[string][]byte{}, roles: map[string][2]int{}}

	var ents []zipEnt
	for _, f := range a.Files {
		ents = append(ents, zipEnt{f.N, content(f.C), f.Z, f.Dir})
	}
	if a.Am.St != "absent" {
		ents = append(ents, zipEnt{"AndroidManifest.xml", b.hk("axml", buildManifest(a.Am)), "deflate", false})
	}
	switch a.Stf {
	case "absent":
	case "junk":
		ents = append(ents, zipEnt{"stamp-cert-sha256", []byte("junkjunkjunkjunkjunkjunkjunkjunk"), "store", false})
	case "big":
		ents = append(ents, zipEnt{"stamp-cert-sha256", content("n:65536:x"), "store", false})
	case "empty":
		ents = append(ents, zipEnt{"stamp-cert-sha256", nil, "store", false})
	case "long", "short": // the digest of ecC, and a byte more or less
		s := sha256.Sum256(certBytes("ecC"))
		d := append(s[:], 0)
		if a.Stf == "short" {
			d = s[:31]
		}
		ents = append(ents, zipEnt{"stamp-cert-sha256", d, "store", false})
	default:
		s := sha256.Sum256(certBytes(a.Stf))
		ents = append(ents, zipEnt{"stamp-cert-sha256", s[:], "store", false})
	}
	if a.V1.St == "ok" {
		v1, mf := b.buildV1(&a.V1, ents)
		b.mfRaw = mf
		ents = append(ents, v1...)
	}
	if a.Zip.Late != "none" && a.Zip.Late != "" {
		ents = append(ents, zipEnt{a.Zip.Late, content("late"), "deflate", false})
	}
	b.ents = ents

	var lastComment []byte
	if a.Zip.Eocd == "zip64" {
		lastComment = append(le(uint32(0x07064b50)), make([]byte, 16)...)
	}
	local, cd, offs := buildZip(prefixBytes(a.Zip.Prefix), ents, lastComment)
	local, cd = b.hk("local", local), b.hk("cd", cd)
	b.offs = offs
	if a.Zip.Align && len(local)%4096 != 0 {
		local = append(local, make([]byte, 4096-len(local)%4096)...)
	}
	if !a.Zip.Align && len(local)%4096 == 0 {
		local = append(local, 0)
	}

	comment := []byte(nil)
	switch a.Zip.Comment {
	case "none":
	case "text":
		comment = []byte("a zip comment")
	case "magic": // contains the end record's magic, but not a consistent record
		comment = append([]byte("x"), le(uint32(0x06054b50), uint16(0), uint16(0), uint16(0), uint16(0), uint32(1), uint32(2), uint16(77))...)
		comment = append(comment, []byte("tail")...)
	case "max":
		comment = bytes.Repeat([]byte("c"), 65535)
	case "fake": // a consistent-looking record inside the comment, pointing elsewhere
		comment = append([]byte("x"), le(uint32(0x06054b50), uint16(0), uint16(0), uint16(0), uint16(0), uint32(1), uint32(2), uint16(4))...)
		comment = append(comment, []byte("tail")...)
	default:
		if n, err := strconv.Atoi(a.Zip.Comment); err == nil {
			comment = bytes.Repeat([]byte("c"), n)
		} else {
			panic("comment " + a.Zip.Comment)
		}
	}
	b.assemble(local, cd, len(ents), comment)
	return b
}

// assemble puts the signing block between the files and the central directory.
func (b *built) assemble(local, cd []byte, entries int, comment []byte) {
	a := b.apk
	sbOff := len(local)
	n := uint16(entries)
	comLen := uint16(len(comment))
	mkEocd := func(off int) []byte {
		cdsz := uint32(len(cd))
		e := le(uint32(0x06054b50), uint16(0), uint16(0), n, n, cdsz, uint32(off), comLen)
		return append(e, comment...)
	}
	b.before, b.cd, b.eocd = local, cd, mkEocd(sbOff)

	// signing block
	var sb []byte
	if a.Sb.St == "ok" {
		// v2 first: frosting hashes it; the digests do not depend on the block itself
		payloads := make([][]byte, len(a.Sb.Pairs))
		for i, p := range a.Sb.Pairs {
			if p.ID != "frost" {
				payloads[i] = b.makePair(p)
				if _, dup := b.blocks[p.ID]; !dup { // of several the first one counts
					b.blocks[p.ID] = payloads[i]
				}
			}
		}
		var pairs []byte
		for i, p := range a.Sb.Pairs {
			pl := payloads[i]
			if p.ID == "frost" {
				pl = b.makePair(p)
				if _, dup := b.blocks[p.ID]; !dup {
					b.blocks[p.ID] = pl
				}
			}
			ln := int64(len(pl) + 4)
			if i == len(a.Sb.Pairs)-1 {
				switch a.Sb.Dmg {
				case "pairbig":
					ln += 1000
				case "pairone":
					ln++
				case "pairzero":
					ln = 0
				case "pairneg":
					ln = -ln
				case "pairshort":
					ln = 3
				case "pairhuge":
					ln = 1 << 33
				}
			}
			pairs = append(pairs, le(ln, blockIDs[p.ID])...)
			pairs = append(pairs, pl...)
		}
		pairs = b.hk("pairs", pairs)
		switch a.Sb.Dmg {
		case "tail":
			pairs = append(pairs, 1, 2, 3)
		case "tail7":
			pairs = append(pairs, make([]byte, 7)...)
		case "tail8":
			pairs = append(pairs, make([]byte, 8)...)
		}
		size := uint64(len(pairs) + 24)
		hdr, ftr := size, size
		magic := []byte("APK Sig Block 42")
		switch a.Sb.Dmg {
		case "magic":
			magic = []byte("APK Sig Block 43")
		case "magiclo":
			magic = []byte("aPK Sig Block 42")
		case "hdrsize":
			hdr++
		case "hdrlow":
			hdr--
		case "hdrhigh":
			hdr |= 1 << 32
		case "hdrneg":
			hdr |= 1 << 63
		case "ftrhigh":
			ftr |= 1 << 32
		case "ftrbig":
			hdr, ftr = 1<<40, 1<<40
		case "ftrsmall":
			hdr, ftr = 8, 8
		case "ftrover": // reaches before the start of the file
			hdr, ftr = uint64(len(local)+len(pairs)+1000), uint64(len(local)+len(pairs)+1000)
		}
		sb = append(sb, le(hdr)...)
		sb = append(sb, pairs...)
		sb = append(sb, le(ftr)...)
		sb = append(sb, magic...)
		sb = b.hk("sb", sb)
		if a.Sb.Dmg == "gap" { // something between block and central directory
			sb = append(sb, 0, 0, 0, 0)
		}
	} else {
		b.blocks = map[string][]byte{}
	}
	cdOff := sbOff + len(sb)
	eocd := mkEocd(cdOff)
	data := append(append([]byte{}, local...), sb...)
	data = append(data, cd...)
	switch a.Zip.Eocd {
	case "ok", "zip64":
	case "cdgap":
		data = append(data, 0, 0, 0, 0)
	case "cdpast":
		binary.LittleEndian.PutUint32(eocd[16:], uint32(len(data)+10))
	case "cdsize":
		binary.LittleEndian.PutUint32(eocd[12:], uint32(len(cd)-1))
	case "comlen":
		binary.LittleEndian.PutUint16(eocd[20:], comLen+3)
	case "trail":
		eocd = append(eocd, 1, 2, 3)
	case "nomagic":
		eocd[0] = 'Q'
	default:
		panic("eocd " + a.Zip.Eocd)
	}
	b.sbOff, b.sbEnd, b.eocdAt, b.cdSize = sbOff, cdOff, len(data), len(cd)
	b.data = b.hk("file", append(data, b.hk("eocd", eocd)...))
}

var _ = fmt.Sprint
var _ = sha512.New

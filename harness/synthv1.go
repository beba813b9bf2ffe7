package main

// JAR (v1) signature synthesis: MANIFEST.MF, .SF and PKCS#7 blocks.

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"path"
	"sort"
	"strings"
	"sync"
)

var v1Hash = map[string]crypto.Hash{
	"md5": crypto.MD5, "sha": crypto.SHA1, "sha1": crypto.SHA1, "sha224": crypto.SHA224, "sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512,
	"sha256": crypto.SHA256, "sha384": crypto.SHA384, "sha512": crypto.SHA512,
}

var v1AttrName = map[string]string{"md5": "MD5", "sha": "SHA", "sha1": "SHA1", "sha-256": "SHA-256", "sha-384": "SHA-384", "sha-512": "SHA-512"}

func hashOf(a string, data []byte) []byte {
	h := v1Hash[a].New()
	h.Write(data)
	return h.Sum(nil)
}

func dsValue(d Ds, data []byte) string {
	h := hashOf(d.A, data)
	switch d.V {
	case "good":
	case "bad":
		h[0] ^= 0x41
	case "badtail":
		h[len(h)-1] ^= 1
	case "short":
		h = h[:len(h)-1]
	case "b64":
		return "!!!not base64!!!"
	case "empty":
		return ""
	default:
		panic("ds " + d.V)
	}
	return base64.StdEncoding.EncodeToString(h)
}

type mfWriter struct {
	buf bytes.Buffer
	fmt Fmt
}

func (w *mfWriter) eol() string {
	switch w.fmt.Eol {
	case "lf":
		return "\n"
	case "cr":
		return "\r"
	}
	return "\r\n"
}

func (w *mfWriter) attr(name, value string) {
	switch w.fmt.Case {
	case "lower":
		name = strings.ToLower(name)
	case "upper":
		name = strings.ToUpper(name)
	}
	line := []byte(name + ": " + value)
	first := 70
	rest := 69
	if w.fmt.Wrap > 0 {
		first, rest = len(name)+2+w.fmt.Wrap, w.fmt.Wrap
	}
	if len(line) > first {
		w.buf.Write(line[:first])
		line = line[first:]
		for len(line) > 0 {
			n := rest
			if n > len(line) {
				n = len(line)
			}
			w.buf.WriteString(w.eol())
			w.buf.WriteByte(' ')
			w.buf.Write(line[:n])
			line = line[n:]
		}
	} else {
		w.buf.Write(line)
	}
	w.buf.WriteString(w.eol())
}

func (w *mfWriter) end() { w.buf.WriteString(w.eol()) }

func daString(da []string) string {
	var t []string
	for _, a := range da {
		if n, ok := v1AttrName[a]; ok {
			t = append(t, n)
		} else {
			t = append(t, a)
		}
	}
	return strings.Join(t, " ")
}

func (w *mfWriter) bad(kind string) {
	switch kind {
	case "none", "unnamed", "dupsec":
	case "nul":
		w.attr("X-Note", "a\x00b")
	case "colon":
		w.buf.WriteString("X-Note:novalue" + w.eol())
	case "name":
		w.buf.WriteString("X Note!: value" + w.eol())
	case "longname":
		w.buf.WriteString(strings.Repeat("N", 71) + ": value" + w.eol())
	case "emptyname":
		w.buf.WriteString(": value" + w.eol())
	case "nosep":
		w.buf.WriteString("JustAWord" + w.eol())
	default:
		panic("bad " + kind)
	}
}

// main manifest; returns raw bytes, end of the main section, sections by name
func buildMF(m *Mf, f Fmt, contents map[string][]byte) (raw []byte, mainEnd int, secs map[string][]byte) {
	w := &mfWriter{fmt: f}
	w.attr("Manifest-Version", "1.0")
	w.attr("Created-By", "1.0 (Verif)")
	w.bad(m.Bad)
	w.end()
	mainEnd = w.buf.Len()
	secs = map[string][]byte{}
	ents := append([]Ent{}, m.Ents...)
	if f.Rev {
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	for i, e := range ents {
		start := w.buf.Len()
		if m.Bad == "unnamed" && i == 0 {
			w.attr("X-Name", realName(e.N))
		} else {
			w.attr("Name", realName(e.N))
		}
		if len(e.Da) != 0 {
			w.attr("Digest-Algorithms", daString(e.Da))
		}
		for _, d := range e.Ds {
			w.attr(v1AttrName[d.A]+"-Digest", dsValue(d, contents[e.N]))
		}
		w.end()
		secs[e.N] = append([]byte{}, w.buf.Bytes()[start:]...)
		if m.Bad == "dupsec" && i == 0 {
			w.buf.Write(secs[e.N])
		}
	}
	return w.buf.Bytes(), mainEnd, secs
}

func buildSF(s *SF, f Fmt, mf []byte, mainEnd int, secs map[string][]byte, nonce int) []byte {
	w := &mfWriter{fmt: f}
	if s.Ver {
		w.attr("Signature-Version", "1.0")
	} else {
		w.attr("X-Version", "1.0")
	}
	if s.Tool {
		w.attr("Created-By", "1.0 (signtool)")
	} else {
		w.attr("Created-By", "1.0 (Verif)")
	}
	if nonce != 0 {
		w.attr("X-Nonce", fmt.Sprint(nonce))
	}
	w.bad(s.Bad)
	if s.Hasxa {
		w.attr("X-Android-APK-Signed", strings.Join(s.Xa, ","))
	}
	if len(s.Da) != 0 {
		w.attr("Digest-Algorithms", daString(s.Da))
	}
	for _, d := range s.Mainds {
		w.attr(v1AttrName[d.A]+"-Digest-Manifest-Main-Attributes", dsValue(d, mf[:mainEnd]))
	}
	for _, d := range s.Whole {
		suffix := "-Digest-Manifest"
		if s.Tool {
			suffix = "-Digest"
		}
		w.attr(v1AttrName[d.A]+suffix, dsValue(d, mf))
	}
	w.end()
	ents := append([]Ent{}, s.Ents...)
	if f.Rev {
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	for i, e := range ents {
		if s.Bad == "unnamed" && i == 0 {
			w.attr("X-Name", realName(e.N))
		} else {
			w.attr("Name", realName(e.N))
		}
		if len(e.Da) != 0 {
			w.attr("Digest-Algorithms", daString(e.Da))
		}
		data := secs[e.N]
		if s.Tool && bytes.HasSuffix(data, []byte("\n\n")) {
			data = data[:len(data)-1]
		}
		for _, d := range e.Ds {
			w.attr(v1AttrName[d.A]+"-Digest", dsValue(d, data))
		}
		w.end()
	}
	return w.buf.Bytes()
}

// ---- PKCS#7 ----

var p7OID = map[string][]int{
	"md5": {1, 2, 840, 113549, 2, 5}, "sha1": {1, 3, 14, 3, 2, 26}, "sha224": {2, 16, 840, 1, 101, 3, 4, 2, 4}, "sha256": {2, 16, 840, 1, 101, 3, 4, 2, 1},
	"sha384": {2, 16, 840, 1, 101, 3, 4, 2, 2}, "sha512": {2, 16, 840, 1, 101, 3, 4, 2, 3}, "md2": {1, 2, 840, 113549, 2, 2}, "unk": {1, 2, 3, 4, 5},
	"rsa": oidRSA, "ec": oidEC, "dsa": oidDSA,
	"md5rsa": {1, 2, 840, 113549, 1, 1, 4}, "sha1rsa": {1, 2, 840, 113549, 1, 1, 5}, "sha224rsa": {1, 2, 840, 113549, 1, 1, 14}, "sha256rsa": {1, 2, 840, 113549, 1, 1, 11},
	"sha384rsa": {1, 2, 840, 113549, 1, 1, 12}, "sha512rsa": {1, 2, 840, 113549, 1, 1, 13},
	"sha1ec": {1, 2, 840, 10045, 4, 1}, "sha224ec": {1, 2, 840, 10045, 4, 3, 1}, "sha256ec": {1, 2, 840, 10045, 4, 3, 2}, "sha384ec": {1, 2, 840, 10045, 4, 3, 3}, "sha512ec": {1, 2, 840, 10045, 4, 3, 4},
	"sha1dsa": {1, 2, 840, 10040, 4, 3}, "sha224dsa": {2, 16, 840, 1, 101, 3, 4, 3, 1}, "sha256dsa": {2, 16, 840, 1, 101, 3, 4, 3, 2},
}

var (
	oidP7Data   = []int{1, 2, 840, 113549, 1, 7, 1}
	oidP7Signed = []int{1, 2, 840, 113549, 1, 7, 2}
	oidCT       = []int{1, 2, 840, 113549, 1, 9, 3}
	oidMD       = []int{1, 2, 840, 113549, 1, 9, 4}
	oidTime     = []int{1, 2, 840, 113549, 1, 9, 5}
)

func derSetOf(items [][]byte) []byte {
	it := append([][]byte{}, items...)
	sort.Slice(it, func(i, j int) bool { return bytes.Compare(it[i], it[j]) < 0 })
	return bytes.Join(it, nil)
}

func (b *built) buildP7(p *PK, sf []byte) []byte {
	switch p.St {
	case "garbage":
		return []byte("this is not PKCS#7")
	case "empty":
		return nil
	case "trunc":
		q := *p
		q.St = "ok"
		d := b.buildP7(&q, sf)
		return d[:len(d)-7]
	}
	var certs []byte
	for _, c := range p.Certs {
		certs = append(certs, b.hk("cert", certBytes(c))...)
	}
	var infos, das []byte
	for _, in := range p.Infos {
		cs := certByNm[in.Cert]
		data := sf
		var attrs []byte
		if in.Sa.St != "none" {
			var items [][]byte
			dataOID, otherOID := derOID(oidP7Data...), derOID(oidP7Signed...)
			ct := func(v ...[]byte) { items = append(items, derSeq(derOID(oidCT...), derSet(v...))) }
			switch in.Sa.Ct {
			case "data":
				ct(dataOID)
			case "other":
				ct(otherOID)
			case "dup":
				ct(dataOID)
				ct(dataOID)
			case "two":
				ct(dataOID, otherOID)
			case "empty":
				ct()
			case "type":
				ct(derOctet(dataOID))
			case "absent":
			default:
				panic("ct " + in.Sa.Ct)
			}
			ha := in.Da
			if v1Hash[ha] == 0 {
				ha = "sha1"
			}
			good := hashOf(ha, sf)
			bad := append([]byte{}, good...)
			bad[3] ^= 1
			md := func(v ...[]byte) { items = append(items, derSeq(derOID(oidMD...), derSet(v...))) }
			switch in.Sa.Md {
			case "good":
				md(derOctet(good))
			case "bad":
				md(derOctet(bad))
			case "short":
				md(derOctet(good[:len(good)-1]))
			case "dup":
				md(derOctet(good))
				md(derOctet(good))
			case "two":
				md(derOctet(good), derOctet(bad))
			case "empty":
				md()
			case "type":
				md(der(0x0c, good))
			case "absent":
			default:
				panic("md " + in.Sa.Md)
			}
			items = append(items, derSeq(derOID(oidTime...), derSet(derUTC("200101000000Z"))))
			body := derSetOf(items)
			if in.Sa.St == "rev" { // not in DER's order: signed as they stand
				body = nil
				for i := range items {
					body = append(body, items[len(items)-1-i]...)
				}
			}
			body = b.hk("p7attrs", body)
			data = der(0x31, body)
			attrs = der(0xa0, body)
		}
		if in.O == "other" {
			data = otherData
		}
		var sig []byte
		k := keys[in.K]
		switch in.F {
		case "garbage":
			sig = []byte{0x30, 6, 2, 1, 1, 2, 1, 1}
		case "none":
			sig = nil
		case "trail", "zero", "neg", "lead":
			sig = oddSig(in.F, k, signRaw(k, v1Hash[in.M], false, data))
		case "strip":
			sig = signRaw(k, v1Hash[in.M], false, data)
			for k.typ == "rsa" && len(sig) != 0 && sig[0] == 0 {
				sig = sig[1:]
			}
		default:
			sig = signRaw(k, v1Hash[in.M], false, data)
		}
		da := derSeq(derOID(p7OID[in.Da]...), derNull())
		dea := derSeq(derOID(p7OID[in.Dea]...), derNull())
		das = append(das, da...)
		infos = append(infos, derSeq(derInt64(1), derSeq(derName(cs.iss), derInt64(cs.serial)), da, attrs, dea, derOctet(sig))...)
	}
	parts := [][]byte{derInt64(1), der(0x31, das), derSeq(derOID(oidP7Data...))}
	if len(certs) != 0 {
		parts = append(parts, der(0xa0, b.hk("p7certs", certs)))
	}
	parts = append(parts, der(0x31, b.hk("p7infos", infos)))
	sd := derSeq(parts...)
	return derSeq(derOID(oidP7Signed...), der(0xa0, sd))
}

// stripped returns a signature file on which the first RSA signature that
// goes without leading zeros has one.
func stripped(p *PK, sf func(int) []byte) []byte {
	plain := sf(0)
	for _, in := range p.Infos {
		k := keys[in.K]
		if in.F != "strip" || in.Sa.St != "none" || in.O != "this" || k.typ != "rsa" || v1Hash[in.M] == 0 {
			continue
		}
		key := in.K + in.M + string(plain)
		if r, ok := strippedSf.Load(key); ok {
			return r.([]byte)
		}
		for i := 1; i < 8192; i++ {
			if d := sf(i); signRaw(k, v1Hash[in.M], false, d)[0] == 0 {
				strippedSf.Store(key, d)
				return d
			}
		}
	}
	return plain
}

var strippedSf sync.Map

// oddSig damages a good signature a little.
func oddSig(how string, k *keyInfo, sig []byte) []byte {
	if k.typ == "rsa" {
		switch how {
		case "trail":
			return append(append([]byte{}, sig...), 0)
		case "zero":
			return make([]byte, len(sig))
		case "lead": // too many octets, the same number
			return append([]byte{0}, sig...)
		}
		return append([]byte{sig[0] ^ 0x80}, sig[1:]...)
	}
	var rs struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(sig, &rs); err != nil {
		return append([]byte{0}, sig...)
	}
	switch how {
	case "trail":
		return append(append([]byte{}, sig...), 5, 0)
	case "zero":
		rs.R = new(big.Int)
	case "lead":
		rs.S = new(big.Int)
	case "neg":
		rs.S.Neg(rs.S)
	}
	if how == "three" {
		return derSeq(derInt(rs.R), derInt(rs.S), derInt(rs.R))
	}
	out, err := asn1.Marshal(rs)
	must(err)
	return out
}

func (b *built) buildV1(v *V1, ents []zipEnt) (out []zipEnt, mf []byte) {
	contents := map[string][]byte{}
	for i := len(ents) - 1; i >= 0; i-- {
		contents[path.Clean(ents[i].name)] = ents[i].data
	}
	mf, mainEnd, secs := buildMF(&v.Mf, v.Fmt, contents)
	mf = b.hk("mf", mf)
	if mainEnd > len(mf) {
		mainEnd = len(mf)
	}
	if v.Mf.St == "ok" {
		out = append(out, zipEnt{"META-INF/MANIFEST.MF", mf, "deflate", false})
	}
	sfs := map[string][]byte{}
	for i := range v.Signers {
		s := &v.Signers[i]
		base := "META-INF/" + s.Base
		if s.Sf.St == "ok" {
			sf := b.hk("sf", stripped(&s.Pk, func(nonce int) []byte { return buildSF(&s.Sf, v.Fmt, mf, mainEnd, secs, nonce) }))
			sfs[s.Base] = sf
			out = append(out, zipEnt{base + ".SF", sf, "deflate", false})
		}
		out = append(out, zipEnt{base + "." + s.Ext, b.hk("p7", b.buildP7(&s.Pk, sfs[s.Base])), "deflate", false})
	}
	if v.Mf.St != "ok" {
		mf = nil
	}
	return out, mf
}

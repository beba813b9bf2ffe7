package main

// The big files of spec/Scale.tla.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

func filler(n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(n))).Read(b)
	return b
}

func fillerText(n int) string { return base64.StdEncoding.EncodeToString(filler(n*3/4 + 3))[:n] }

func many(n int, f func(i int) string) string {
	var s strings.Builder
	for i := 0; s.Len() < n; i++ {
		s.WriteString(f(i))
	}
	return s.String()
}

// withCert: rsaA's certificate with a part of its TBS replaced (0 serial .. 7 extensions).
func withCert(f func(tbs *derNode)) []byte {
	ns, _ := parseDER(certDER["rsaA"], 0)
	f(ns[0].kids[0])
	var out bytes.Buffer
	ns[0].encode(&out)
	return out.Bytes()
}

func rawNode(b []byte) *derNode {
	ns, _ := parseDER(b, 0)
	return ns[0]
}

func setExtensions(tbs *derNode, exts []byte) {
	for i, k := range tbs.kids {
		if k.tag[0] == 0xa3 {
			tbs.kids = tbs.kids[:i]
			break
		}
	}
	tbs.kids = append(tbs.kids, &derNode{tag: []byte{0xa3}, val: derSeq(exts)})
}

func makeShape(shape string, n int, bases []json.RawMessage) (data []byte, total int, p7 [][]byte) {
	a := validApk()
	hooks := map[string]func([]byte) []byte{}
	extra := func(ents []FileE) { a.Files = append(a.Files, ents...) }
	var v1files []FileE
	p7set := func(b []byte) { hooks["p7"] = func([]byte) []byte { return b }; p7 = append(p7, b) }
	// only for the JAR signature
	v1only := func() { a.Sb = SB{St: "none", Dmg: "none"} }
	switch {
	case strings.HasPrefix(shape, "rep:"):
		part := shape[4:]
		for _, j := range bases {
			x := cloneApk(j)
			if x.Sb.Dmg != "none" || x.Zip.Eocd != "ok" {
				continue
			}
			found := false
			buildHooked(x, func(p string, b []byte) []byte {
				found = found || (p == part && len(b) > 0)
				return b
			})
			if found {
				a = x
				break
			}
		}
		done := false
		hooks[part] = func(b []byte) []byte {
			if done || len(b) == 0 {
				return b
			}
			done = true
			if part == "stampAttrs" { // with its length
				body := bytes.Repeat(b[4:], n/len(b)+1)
				return lp(body)
			}
			return bytes.Repeat(b, n/len(b)+1)
		}
	case shape == "files" || shape == "dirs" || shape == "samename":
		for i := 0; i*100 < n; i++ {
			name := fmt.Sprintf("f%d", i)
			if shape == "samename" {
				name = "res/x.txt"
			}
			v1files = append(v1files, FileE{name, "empty", "store", shape == "dirs"})
		}
		extra(v1files)
		if shape == "files" {
			var names []string
			for _, f := range a.Files {
				names = append(names, f.N)
			}
			a.V1 = validV1(append(names, "AndroidManifest.xml"), "rsaA", "sha256", "rsa", "sha256")
		}
	case shape == "mfSections":
		hooks["mf"] = func(b []byte) []byte {
			return append(b, many(n, func(i int) string { return fmt.Sprintf("Name: n%d\r\nSHA1-Digest: AAAA\r\n\r\n", i) })...)
		}
		v1only()
	case shape == "sfSections":
		hooks["sf"] = func(b []byte) []byte {
			return append(b, many(n, func(i int) string { return fmt.Sprintf("Name: n%d\r\nSHA1-Digest: AAAA\r\n\r\n", i) })...)
		}
		v1only()
	case shape == "mfLines" || shape == "sfLines" || shape == "mfLongLine" || shape == "mfContinuation" || shape == "mfDigests" || shape == "sfAlgorithms" || shape == "sfApkSigned":
		part := "mf"
		if strings.HasPrefix(shape, "sf") {
			part = "sf"
		}
		var s string
		switch shape[2:] {
		case "Lines":
			s = many(n, func(i int) string { return fmt.Sprintf("X-%d: y\r\n", i) })
		case "LongLine":
			s = "X: " + fillerText(n) + "\r\n"
		case "Continuation":
			s = "X: y" + many(n, func(i int) string { return "\r\n y" }) + "\r\n"
		case "Digests":
			s = "Digest-Algorithms: " + many(n, func(i int) string { return "SHA1 " }) + "\r\n"
		case "Algorithms":
			s = "Digest-Algorithms: " + many(n, func(i int) string { return "SHA-256 SHA1 foo " }) + "\r\n"
		case "ApkSigned":
			s = "X-Android-APK-Signed: " + many(n, func(i int) string { return "9, ," }) + "\r\n"
		}
		hooks[part] = func(b []byte) []byte { // into the main section, and (digests) the first file's
			i := bytes.Index(b, []byte("\r\n")) + 2
			out := append(append([]byte{}, b[:i]...), s...)
			out = append(out, b[i:]...)
			if shape == "mfDigests" {
				j := bytes.Index(out, []byte("Name: "))
				j += bytes.Index(out[j:], []byte("\r\n")) + 2
				out = append(append(append([]byte{}, out[:j]...), s...), out[j:]...)
			}
			return out
		}
		v1only()
	case shape == "mfEmptyLines":
		hooks["mf"] = func(b []byte) []byte { return append(b, many(n, func(int) string { return "\r\n" })...) }
		v1only()
	case shape == "signatureFiles" || shape == "blockFilesOnly":
		one := a.V1.Signers[0]
		for i := 0; i*900 < n; i++ {
			s := one
			s.Base = fmt.Sprintf("S%d", i)
			if shape == "blockFilesOnly" {
				s.Sf.St = "absent"
			}
			a.V1.Signers = append(a.V1.Signers, s)
		}
		v1only()
	case shape == "comment":
		a.Zip.Comment = "max"
	case shape == "commentMagic":
		hooks["eocd"] = func(b []byte) []byte {
			b = append([]byte{}, b[:22]...)
			c := bytes.Repeat([]byte("PK\x05\x06"), 16383)
			binary.LittleEndian.PutUint16(b[20:], uint16(len(c)))
			return append(b, c...)
		}
	case shape == "prefix":
		hooks["local"] = func(b []byte) []byte { return b }
		a.Zip.Prefix = "none"
		a.Files = append([]FileE{{"first", fmt.Sprintf("n:%d:p", n), "store", false}}, a.Files...)
	case shape == "padding":
		a.Sb.Pairs = append(a.Sb.Pairs, Pair{ID: "pad", Fr: "ok", Data: strings.Repeat("p", n)})
	case shape == "emptyPairs" || shape == "unknownPairs":
		hooks["pairs"] = func(b []byte) []byte {
			out := append([]byte{}, b...)
			for i := 0; len(out) < n; i++ {
				id := uint32(0x10000000 + i)
				if shape == "emptyPairs" {
					id = 0x42726577
				}
				out = append(out, le(int64(4), id)...)
			}
			return out
		}
	case shape == "bigPair":
		a.Sb.Pairs = append(a.Sb.Pairs, Pair{ID: "unkA", Fr: "ok", Data: fillerText(n)})
	case shape == "frostEntries" || shape == "frostBytes":
		a.Sb.Pairs = append(a.Sb.Pairs, Pair{ID: "frost", Fr: "ok", Frost: &Frost{Fr: "ok", Entries: []FrostEntry{{Dis: 1, Key: 0, Hash: "good", K: "rsaA", O: "this", F: "ok"}}}})
		if shape == "frostEntries" {
			hooks["frostMeta"] = func(b []byte) []byte { return bytes.Repeat(b, n/len(b)+1) }
		} else {
			hooks["frost"] = func(b []byte) []byte { return bytes.Repeat([]byte{0xff, 0xff, 0xff, 0xff, 0x07}, n/5) }
		}
	case strings.HasPrefix(shape, "p7"):
		v1only()
		var b []byte
		switch shape[2:] {
		case "nest":
			b = nestDER(0x30, n/5, nil)
		case "nestIndef":
			b = append(bytes.Repeat([]byte{0x30, 0x80}, n/4), make([]byte, n/4*2)...)
		case "overlap": // every object reaches to the end of what there is
			for i := 0; i < 120; i++ {
				b = append(b, 0x30, 2, 0x30, byte(120-i-4))
			}
		case "flat":
			b = derSeq(bytes.Repeat([]byte{5, 0}, n/2))
		case "flatIndef": // no two zero bytes in a row before the end
			b = append(append([]byte{0x30, 0x80}, bytes.Repeat([]byte{2, 1, 1}, n/3)...), 0, 0)
		case "flatIndefEmpty":
			b = append(append([]byte{0x30, 0x80}, bytes.Repeat([]byte{0x30, 0x80, 0, 0}, n/4)...), 0, 0)
		case "segments":
			b = append(append([]byte{0x24, 0x80}, bytes.Repeat([]byte{4, 1, 1}, n/3)...), 0, 0)
			b = derSeq(derOID(oidP7Data...), der(0xa0, b))
		case "oid":
			b = derSeq(der(6, bytes.Repeat([]byte{0x81}, n)), der(0xa0, nil))
		case "int":
			b = derSeq(derOID(oidP7Signed...), der(0xa0, derSeq(der(2, filler(n)), der(0x31, nil), derSeq(derOID(oidP7Data...)), der(0x31, nil))))
		}
		p7set(b)
	case strings.HasPrefix(shape, "cert"):
		var c []byte
		switch shape[4:] {
		case "Ext":
			c = withCert(func(t *derNode) {
				e := derSeq(derOID(1, 2, 3, 4), derOctet([]byte{5, 0}))
				setExtensions(t, bytes.Repeat(e, n/len(e)))
			})
		case "Sans":
			c = withCert(func(t *derNode) {
				e := der(0x82, []byte("a.example"))
				setExtensions(t, derSeq(derOID(2, 5, 29, 17), derOctet(derSeq(bytes.Repeat(e, n/len(e))))))
			})
		case "Names":
			c = withCert(func(t *derNode) {
				e := derSet(derSeq(derOID(oidCN...), derUTF8("name")))
				for _, k := range t.kids {
					if k.tag[0] == 0x30 && len(k.kids) > 1 && k.kids[0].tag[0] == 0x31 {
						k.kids, k.val = nil, bytes.Repeat(e, n/len(e))
					}
				}
			})
		case "Key": // an RSA key of many bits (reading it must not be made to compute with it forever)
			c = withCert(func(t *derNode) {
				m := filler(n)
				m[0] = 0x55
				for _, k := range t.kids {
					if k.tag[0] == 0x30 && len(k.kids) == 2 && k.kids[1].tag[0] == 3 {
						k.kids[1] = &derNode{tag: []byte{3}, val: append([]byte{0}, derSeq(der(2, m), derInt64(65537))...)}
					}
				}
			})
		case "DsaP", "DsaQ", "DsaPQ": // the same of a DSA key
			m := filler(n)
			m[0], m[n-1] = 0x55, 0x55
			huge := derInt(new(big.Int).SetBytes(m))
			pq := func(name string, b *big.Int) []byte {
				if strings.Contains(shape[4:], name) {
					return huge
				}
				return derInt(b)
			}
			k := keys["dsaA"].dsa
			pub := derSeq(derSeq(derOID(oidDSA...), derSeq(pq("P", k.P), pq("Q", k.Q), derInt(k.G))), derBits(derInt(k.Y)))
			hooks["pub"] = func([]byte) []byte { return pub }
			a.Sb.Pairs[0].Signers[0] = validSigner("dsa256", "dsaA", 0, 0)
			c = withCert(func(t *derNode) {
				for i, k := range t.kids {
					if k.tag[0] == 0x30 && len(k.kids) == 2 && k.kids[1].tag[0] == 3 {
						n, _ := parseDER(pub, 0)
						t.kids[i] = n[0]
					}
				}
			})
		case "Oid":
			c = withCert(func(t *derNode) {
				setExtensions(t, derSeq(der(6, append(bytes.Repeat([]byte{0x2a}, n), 1)), derOctet(nil)))
			})
		case "Nest":
			c = withCert(func(t *derNode) { setExtensions(t, nestDER(0x30, n/5, nil)) })
		}
		hooks["cert"] = func([]byte) []byte { return c }
	case strings.HasPrefix(shape, "axml"):
		var tags []axmlTag
		man := axmlTag{name: "manifest"}
		var out []byte
		switch shape[4:] {
		case "Tags", "Nest":
			tags = append(tags, man)
			for i := 0; i*60 < n; i++ {
				tags = append(tags, axmlTag{name: "application"})
			}
		case "Attrs":
			for i := 0; i*20 < n && i < 60000; i++ {
				man.attrs = append(man.attrs, axmlAttr{name: "targetSandboxVersion", val: 1})
			}
			tags = append(tags, man)
		case "Strings":
			for i := 0; i*30 < n && i < 60000; i++ {
				man.attrs = append(man.attrs, axmlAttr{name: fmt.Sprintf("a%d", i), val: 1})
			}
			tags = append(tags, man)
		case "String":
			tags = append(tags, axmlTag{name: "manifest", attrs: []axmlAttr{{name: "package", isS: true, str: strings.Repeat("p", 32000)}}})
		}
		switch shape[4:] {
		case "TableLen": // a string table said to be 4 GB long
			out = buildAxml([]axmlTag{man})
			binary.LittleEndian.PutUint32(out[12:], 0xffffffff)
		case "StringLen": // a string said to be 2 GB long
			out = buildAxml([]axmlTag{man})
			i := bytes.Index(out, []byte("m\x00a\x00n\x00"))
			copy(out[i-2:], []byte{0xff, 0xff, 0xff, 0xff})
		default:
			out = buildAxml(tags)
		}
		hooks["axml"] = func([]byte) []byte { return out }
	case shape == "bundleConfig":
		extra([]FileE{{"BundleConfig.pb", fmt.Sprintf("n:%d:b", n), "deflate", false}})
	case shape == "stampFile":
		a.Stf = "big"
	case shape == "lineageFlat":
		a.Sb.Pairs[1].Signers[0].Attrs = []Attr{{T: "lin", Ver: 1, Nodes: []Node{{C: "rsaA", PA: "rsa256", NA: "rsa256", Fl: 1, K: "", M: "", O: "this", F: "ok"}}}}
		hooks["nodes"] = func(b []byte) []byte { return bytes.Repeat(b, n/len(b)+1) }
	case shape == "contents":
		extra([]FileE{{"big", fmt.Sprintf("n:%d:c", 4*n), "store", false}})
		a.Sb.Pairs = append(a.Sb.Pairs, Pair{ID: "stamp", Fr: "ok", Stamp: &Stamp{Fr: "ok", Cert: "ecA"}})
	case shape == "verity":
		a.Zip.Align = true
		extra([]FileE{{"big", fmt.Sprintf("n:%d:v", 4*n), "store", false}})
		a.Sb.Pairs = []Pair{{ID: "v2", Fr: "ok", Signers: []Signer{validSigner("vrsa", "rsaA", 0, 0)}}}
	default:
		fatal("shape %q", shape)
	}
	b := buildHooked(a, func(part string, p []byte) []byte {
		if h := hooks[part]; h != nil {
			return h(p)
		}
		return p
	})
	total = len(b.data)
	for _, e := range b.ents {
		total += len(e.data)
		if len(p7) == 0 && strings.HasPrefix(e.name, "META-INF/") && strings.HasSuffix(e.name, ".RSA") {
			p7 = append(p7, e.data)
		}
	}
	return b.data, total, p7
}

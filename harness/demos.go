package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// Demonstrations of planted bugs: APKs and calls on which the changed code differs.

type demoCall struct {
	Apk, Call string
	Min, Max  int
	Want      string
}

type demoApk struct {
	name  string
	apk   *Apk
	calls []demoCall
	hook  func(role string, b []byte) []byte
}

func vf(min, max int) demoCall { return demoCall{Call: "verify", Min: min, Max: max} }
func bl(min, max int) demoCall { return demoCall{Call: "block", Min: min, Max: max} }

func apkWith(pairs []Pair, v1 bool) *Apk {
	a := validApk()
	a.Sb.Pairs = pairs
	if len(pairs) == 0 {
		a.Sb.St = "none"
	}
	if !v1 {
		a.V1 = V1{St: "none", Fmt: a.V1.Fmt, Mf: Mf{St: "ok", Bad: "none", Ents: []Ent{}}, Signers: []V1Signer{}}
	}
	return a
}

func pr(id string, s ...Signer) Pair { return Pair{ID: id, Fr: "ok", Signers: s} }

func demoLin(certs ...string) Attr {
	at := Attr{T: "lin", Ver: 1}
	for i, c := range certs {
		n := Node{C: c, PA: "unkZ", NA: demoAlg(c), Fl: 23, F: "ok", M: "unkZ", O: "this"}
		if i > 0 {
			n.PA, n.M, n.K = demoAlg(certs[i-1]), demoAlg(certs[i-1]), certs[i-1]
		}
		at.Nodes = append(at.Nodes, n)
	}
	return at
}

func demoAlg(k string) string {
	return map[string]string{"rsa": "rsa256", "ec": "ec256", "dsa": "dsa256"}[keys[k].typ]
}

func demos() map[string][]demoApk {
	s2 := func(k string) Signer { return validSigner(demoAlg(k), k, 0, 0) }
	s3 := func(k string, min, max int, at ...Attr) Signer {
		s := validSigner(demoAlg(k), k, min, max)
		s.Attrs = append(s.Attrs, at...)
		return s
	}
	out := map[string][]demoApk{}
	add := func(id, name string, a *Apk, calls ...demoCall) {
		out[id] = append(out[id], demoApk{name, a, calls, nil})
	}

	// C01: verity tree of exactly 128 pages of protected data, last pages tampered with
	{
		a := apkWith([]Pair{pr("v2", validSigner("vrsa", "rsaA", 0, 0))}, false)
		a.Zip.Align = true
		add("C01-verity-level", "a", a, bl(28, 30))
		b := apkWith([]Pair{pr("v2", validSigner("vrsa", "rsaA", 0, 0))}, false)
		b.Zip.Align = true
		b.Files = append(b.Files, FileE{"big.bin", "n:516096:q", "store", false})
		add("C01-verity-level", "b", b, bl(28, 30))
	}
	// C02: the certificate of the signer's key is not the first of the list
	{
		s := s2("rsaB")
		s.Certs = []string{"rsaA", "rsaB"}
		add("C02-any-cert", "a", apkWith([]Pair{pr("v2", s)}, false), vf(24, 30), bl(24, 27))
		s3x := s3("rsaB", 28, maxInt)
		s3x.Certs = []string{"rsaA", "rsaB"}
		add("C02-any-cert", "b", apkWith([]Pair{pr("v3", s3x)}, false), vf(28, 30))
	}
	// C03: v3.1 only counts from 33 on
	{
		a := apkWith([]Pair{pr("v3", s3("rsaA", 24, 32, Attr{T: "rotmin", V: 33})), pr("v31", s3("ecA", 33, maxInt, demoLin("rsaA", "ecA")))}, false)
		add("C03-v31-from-32", "a", a, vf(28, 32), vf(28, 33), bl(28, 32))
	}
	// C04
	{
		a := apkWith([]Pair{pr("v2", s2("rsaA"))}, false)
		add("C04-max-instead-of-min", "a", a, vf(21, 30), vf(24, 30), vf(23, 24))
	}
	// C05
	{
		a := apkWith(nil, true)
		a.V1.Signers[0].Sf.Hasxa, a.V1.Signers[0].Sf.Xa = true, []string{"junk", "2"}
		add("C05-bad-token", "a", a, vf(21, 30))
		b := apkWith(nil, true)
		b.V1.Signers[0].Sf.Hasxa, b.V1.Signers[0].Sf.Xa = true, []string{"", "3"}
		add("C05-bad-token", "b", b, vf(21, 30))
	}
	// C06
	{
		s := s2("rsaA")
		s.Attrs = []Attr{{T: "unk"}, {T: "strip", V: 3}}
		add("C06-unknown-attr-ends", "a", apkWith([]Pair{pr("v2", s)}, true), vf(24, 30), vf(21, 27))
	}
	// C07
	{
		bad := s3("rsaA", 24, maxInt)
		bad.Sigs[0].F = "garbage"
		add("C07-fallback-at-28", "a", apkWith([]Pair{pr("v2", s2("rsaA")), pr("v3", bad)}, true), vf(28, 30), vf(27, 30))
	}
	// C08
	{
		a := apkWith([]Pair{pr("v3", s3("rsaA", 24, 30), s3("ecA", 29, maxInt, demoLin("rsaA", "ecA")))}, false)
		add("C08-overlap", "a", a, vf(28, 34))
		b := apkWith([]Pair{pr("v3", s3("rsaA", 24, 30), s3("ecA", 32, maxInt, demoLin("rsaA", "ecA")))}, false)
		add("C08-overlap", "b", b, vf(28, 34))
	}
	// C09
	{
		a := apkWith([]Pair{pr("v3", s3("rsaA", 24, maxInt, demoLin("rsaA", "ecA", "rsaB", "ecA", "rsaA")))}, false)
		add("C09-duplicate-neighbour", "a", a, vf(28, 34))
		b := apkWith([]Pair{pr("v3", s3("ecB", 24, maxInt, demoLin("rsaA", "ecA", "rsaA", "ecB")))}, false)
		add("C09-duplicate-neighbour", "b", b, vf(28, 34))
	}
	// C10: the base says rotation starts at 34, the v3.1 block at 33
	for i, v := range []int{32, 33, 34} {
		a := apkWith([]Pair{pr("v3", s3("rsaA", 24, 32, Attr{T: "rotmin", V: v})), pr("v31", s3("ecA", 33, maxInt, demoLin("rsaA", "ecA")))}, false)
		add("C10-rotation-later", string(rune('a'+i)), a, vf(33, 34), vf(28, 34))
	}
	// C11: nobody signed this file
	{
		a := apkWith(nil, true)
		a.Stf = "junk"
		add("C11-stamp-file", "a", a, vf(21, 30))
		b := apkWith(nil, true)
		b.Files = append(b.Files, FileE{"META-INF/note.txt", "z", "store", false})
		add("C11-stamp-file", "b", b, vf(21, 30))
	}
	// C08: ranges starting before v3 existed
	{
		a := apkWith([]Pair{pr("v3", s3("rsaA", 28, 30), s3("ecA", 31, maxInt, demoLin("rsaA", "ecA")))}, false)
		add("C08-lower-clamp", "a", a, vf(24, 30), vf(25, 30), vf(27, 34), vf(28, 34))
	}
	// C01: the digests of every signer have to match
	{
		s := s3("rsaA", 28, 30)
		s.Sigs = []Sig{validSig("rsa512", "rsaA")}
		s.Digs = []Dig{{A: "rsa512", D: "good", F: "ok"}}
		t := s3("ecA", 31, maxInt, demoLin("rsaA", "ecA"))
		add("C01-strong-digest-only", "a", apkWith([]Pair{pr("v3", s, t)}, false), vf(28, 34))
		t.Digs = []Dig{{A: "ec256", D: "bad", F: "ok"}}
		add("C01-strong-digest-only", "b", apkWith([]Pair{pr("v3", s, t)}, false), vf(28, 34))
	}
	// C11: one of the signers did not sign everything
	{
		a := apkWith(nil, true)
		one := a.V1.Signers[0]
		two, three := one, validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml"}, "ecA", "sha256", "ec", "sha256").Signers[0]
		two.Base, three.Base = "TWO", "THREE"
		two.Sf.Ents, three.Sf.Ents = one.Sf.Ents[:1], one.Sf.Ents[1:]
		a.V1.Signers = []V1Signer{one, two, three}
		add("C11-one-way-match", "a", a, vf(21, 30))
		b := apkWith(nil, true)
		two.Sf.Ents = one.Sf.Ents
		b.V1.Signers = []V1Signer{one, two}
		add("C11-one-way-match", "b", b, vf(21, 30))
	}
	// C12: before 24, only the first signer info counts
	{
		a := apkWith(nil, true)
		in := a.V1.Signers[0].Pk.Infos[0]
		bad := in
		bad.F = "garbage"
		a.V1.Signers[0].Pk.Infos = []Info{bad, in}
		add("C12-first-info", "a", a, vf(21, 23), vf(21, 28), vf(24, 28))
	}
	// C13
	{
		a := apkWith(nil, true)
		for i := range a.V1.Mf.Ents {
			a.V1.Mf.Ents[i].Ds = []Ds{{"sha1", "good"}, {"sha-256", "bad"}}
		}
		add("C13-exactly-18", "a", a, vf(17, 18), vf(17, 17), vf(16, 19))
	}
	// C14
	{
		for i, sbx := range []int{1, 2, 3, 4} {
			a := apkWith(nil, true)
			a.Am = AM{"ok", 21, 27, sbx}
			add("C14-sandbox-2-only", string(rune('a'+i)), a, vf(-1, 30), vf(21, 25))
		}
	}
	// C16
	{
		a := apkWith([]Pair{pr("v2", s2("rsaA"))}, true)
		a.Zip.Prefix = "dex"
		add("C16-dex-with-block", "a", a, vf(21, 30), vf(24, 30))
		b := apkWith(nil, true)
		b.Zip.Prefix = "dex"
		add("C16-dex-with-block", "b", b, vf(21, 30))
	}
	// C17
	{
		a := apkWith([]Pair{pr("v2", s2("rsaA"))}, true)
		a.Sb.Dmg = "hdrhigh"
		add("C17-size-32-bits", "a", a, vf(24, 30), bl(24, 30))
	}
	// C18
	{
		s := s2("rsaA")
		s.Sigs = []Sig{{A: "unkX", M: "unkX", K: "rsaA", O: "this", F: "ok"}, s.Sigs[0]}
		s.Digs = []Dig{{A: "unkX", D: "good", F: "ok"}, s.Digs[0]}
		add("C18-unknown-algorithm", "a", apkWith([]Pair{pr("v2", s)}, false), vf(24, 30))
		add("C18-unknown-algorithm", "b", apkWith([]Pair{pr("v2", s2("rsaA"))}, false), vf(24, 30))
	}
	// C19: a stamp for v3 where v2 counts
	{
		st := &Stamp{Fr: "ok", Cert: "ecA", HasAttrs: true, Attrs: []Attr{{T: "time", V: 1000}}, Asigs: []Sig{validSig("ec256", "ecA")},
			Schemes: []StampScheme{{ID: 3, Sigs: []Sig{validSig("ec256", "ecA")}}}}
		a := apkWith([]Pair{pr("v2", s2("rsaA")), pr("v3", s3("rsaA", 24, maxInt)), {ID: "stamp", Fr: "ok", Stamp: st}}, false)
		a.Stf = "ecA"
		add("C19-stamp-other-scheme", "a", a, vf(24, 27), vf(28, 30))
		st2 := *st
		st2.Schemes = []StampScheme{{ID: 2, Sigs: []Sig{validSig("ec256", "ecA")}}, st.Schemes[0]}
		b := *a
		b.Sb.Pairs = append(append([]Pair{}, a.Sb.Pairs[:2]...), Pair{ID: "stamp", Fr: "ok", Stamp: &st2})
		add("C19-stamp-other-scheme", "b", &b, vf(24, 27), vf(28, 30))
	}
	// C19: the digest of the certificate and a byte more or less; a few bytes instead of attributes
	{
		st := &Stamp{Fr: "ok", Cert: "ecC", Schemes: []StampScheme{{ID: 2, Sigs: []Sig{validSig("ec256", "ecC")}}}}
		a := apkWith([]Pair{pr("v2", s2("rsaA")), {ID: "stamp", Fr: "ok", Stamp: st}}, false)
		for _, stf := range []string{"ecC", "long", "short"} {
			b := *a
			b.Stf = stf
			add("C19-stamp-digest-length", stf, &b, vf(24, 30))
		}
		for _, fr := range []string{"ok", "rest1", "rest4", "rest8"} {
			b, s := *a, *st
			s.Fr = fr
			b.Stf = "ecC"
			b.Sb.Pairs = append(append([]Pair{}, a.Sb.Pairs[:1]...), Pair{ID: "stamp", Fr: "ok", Stamp: &s})
			add("C19-stamp-remainder", fr, &b, vf(24, 30))
		}
	}
	// C21: two digests below one stamp, several times
	{
		st := &Stamp{Fr: "ok", Cert: "ecA", HasAttrs: true, Attrs: []Attr{{T: "time", V: 1000}}, Asigs: []Sig{validSig("ec256", "ecA")},
			Schemes: []StampScheme{{ID: 2, Sigs: []Sig{validSig("ec256", "ecA")}}}}
		a := apkWith([]Pair{pr("v2", s2("rsaA"), validSigner("rsa512", "rsaB", 0, 0)), {ID: "stamp", Fr: "ok", Stamp: st}}, false)
		a.Stf = "ecA"
		var calls []demoCall
		for i := 0; i < 40; i++ {
			calls = append(calls, bl(24, 30))
		}
		add("C21-stamp-digest-order", "a", a, calls...)
	}
	// C21: a call after another one
	{
		a := apkWith(nil, true)
		a.Am = AM{"ok", 21, 27, 2}
		b := apkWith(nil, true)
		b.Am = AM{"ok", 21, 27, -1}
		add("C21-manifest-defaults", "a", b, vf(-1, 30))
		add("C21-manifest-defaults", "b", a, vf(-1, 30))
		add("C21-manifest-defaults", "c", b, vf(-1, 30))
	}
	// C22
	add("C22-scratch-buffer", "a", apkWith([]Pair{pr("v2", s2("rsaA"))}, false), vf(24, 30))
	{
		b := apkWith([]Pair{pr("v2", s2("rsaB"))}, false)
		b.Files = []FileE{{"classes.dex", "n:30000:other", "store", false}}
		add("C22-scratch-buffer", "b", b, vf(24, 30))
	}
	// C24
	{
		a := apkWith(nil, true)
		a.V1.Signers[0].Pk.Infos = []Info{}
		add("C24-no-signer-infos", "a", a, vf(21, 30), vf(24, 30))
	}
	// C25: a block that is there, but broken
	{
		a := apkWith([]Pair{{ID: "v2", Fr: "listTrunc", Signers: []Signer{s2("rsaB")}}}, true)
		add("C25-broken-block", "a", a, demoCall{Call: "extract"}, vf(24, 30))
		add("C25-broken-block", "b", apkWith(nil, true), demoCall{Call: "extract"})
	}
	// C12: two valid signer infos
	{
		a := apkWith(nil, true)
		pk := &a.V1.Signers[0].Pk
		in := pk.Infos[0]
		second := in
		second.Cert, second.K = "rsaB", "rsaB"
		pk.Certs = append(pk.Certs, "rsaB")
		pk.Infos = []Info{in, second}
		add("C12-last-info", "a", a, vf(24, 30), vf(21, 30))
	}
	// C15: the manifest has a say only if the caller leaves it to it
	{
		for i, mn := range []int{21, 24, 28, -1} {
			a := apkWith([]Pair{pr("v2", s2("rsaA"))}, false)
			a.Am = AM{"ok", mn, 28, 1}
			add("C15-raised-lower-bound", string(rune('a'+i)), a, vf(-1, 30), vf(21, 30), vf(24, 30), vf(21, 25))
		}
	}
	// C20: a disabled entry first
	{
		a := apkWith([]Pair{pr("v2", s2("rsaA")), {ID: "frost", Fr: "ok", Frost: &Frost{Fr: "ok", Entries: []FrostEntry{
			{Dis: 1, Key: 0, Hash: "good", K: "rsaA", O: "this", F: "ok"}, {Dis: 0, Key: 0, Hash: "good", K: "ecA", O: "this", F: "ok"}}}}}, false)
		add("C20-disabled-entries", "a", a, bl(24, 30))
	}
	// C23: a block that must not be overlooked
	{
		s := s2("rsaA")
		s.Sigs[0].F = "garbage"
		add("C23-short-footer", "a", apkWith([]Pair{pr("v2", s)}, true), vf(21, 30))
	}
	// C29: the longest attribute name
	manifest := func(id, name string, a *Apk, els []mElem, c ...demoCall) {
		a.V1 = validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml"}, "rsaA", "sha1", "rsa", "sha1")
		add(id, name, a, c...)
		out[id][len(out[id])-1].hook = func(role string, b []byte) []byte {
			if role == "axml" {
				return mCase{Doc: els, Form: 1}.axml()
			}
			return b
		}
	}
	at := func(k string, i int32) mAttr { return mAttr{k, "int", i} }
	manifest("C14-target-raised", "a", apkWith(nil, true), []mElem{{"manifest", 1, nil}, {"uses-sdk", 2, []mAttr{at("minSdkVersion", 30), at("targetSdkVersion", 29)}}}, vf(-1, 33), vf(-1, 29))
	manifest("C14-target-raised", "b", apkWith(nil, true), []mElem{{"manifest", 1, nil}, {"uses-sdk", 2, []mAttr{at("minSdkVersion", 21), at("targetSdkVersion", 29)}}}, vf(-1, 33), vf(-1, 29))
	manifest("C15-attribute-prefix", "a", apkWith(nil, true), []mElem{{"manifest", 1, nil}, {"uses-sdk", 2, []mAttr{at("minSdkVersionFull", 2600000), at("minSdkVersion", 26)}}}, vf(-1, 29), vf(-1, maxInt))
	manifest("C15-attribute-prefix", "b", apkWith(nil, true), []mElem{{"manifest", 1, nil}, {"uses-sdk", 2, []mAttr{at("minSdkVersion", 26), at("minSdkVersionFull", 2600000)}}}, vf(-1, 29), vf(-1, maxInt))

	{
		mf := "Manifest-Version: 1.0\r\n" + strings.Repeat("L", 70) + ": x\r\n\r\n"
		a := apkWith(nil, true)
		add("C29-long-name", "a", a, vf(21, 30))
		txInit()
		for _, f := range []string{"classes.dex", "res/x.txt", "AndroidManifest.xml"} {
			mf += "Name: " + f + "\r\nSHA-256-Digest: " + txDigest(txContents[f]) + "\r\n\r\n"
		}
		add("C29-long-name", "b", a, vf(21, 30))
		out["C29-long-name"][1].hook = func(role string, b []byte) []byte {
			switch role {
			case "mf":
				return []byte(mf)
			case "sf":
				return []byte("Signature-Version: 1.0\r\nSHA-256-Digest-Manifest: " + txDigest([]byte(mf)) + "\r\n\r\n" + mf[strings.Index(mf, "Name: "):])
			}
			return b
		}
	}
	return out
}

func writeDemos(dir string) {
	for id, l := range demos() {
		d := filepath.Join(dir, id)
		os.MkdirAll(d, 0755)
		var cases []demoCall
		for _, x := range l {
			os.WriteFile(filepath.Join(d, x.name+".apk"), buildHooked(x.apk, x.hook).data, 0644)
			for _, c := range x.calls {
				c.Apk = x.name + ".apk"
				cases = append(cases, c)
			}
		}
		j, _ := json.MarshalIndent(cases, "", " ")
		os.WriteFile(filepath.Join(d, "cases.json"), append(j, '\n'), 0644)
	}
}

package main

func validSig(a, k string) Sig { return Sig{A: a, M: a, K: k, O: "this", F: "ok"} }

func validSigner(algo, key string, min, max int) Signer {
	return Signer{Fr: "ok", Omin: min, Omax: max, Smin: min, Smax: max, Sigs: []Sig{validSig(algo, key)}, Pub: key, Certs: []string{key},
		Digs: []Dig{{A: algo, D: "good", F: "ok"}}, Attrs: []Attr{}}
}

const maxInt = 2147483647

func validV1(files []string, key, da, dea, hash string) V1 {
	v := V1{St: "ok", Fmt: Fmt{Eol: "crlf", Case: "canon"}, Mf: Mf{St: "ok", Bad: "none", Ents: []Ent{}}, Signers: []V1Signer{}}
	sf := SF{St: "ok", Bad: "none", Ver: true, Xa: []string{}, Da: []string{}, Mainds: []Ds{}, Whole: []Ds{{"sha1", "good"}}, Ents: []Ent{}}
	for _, f := range files {
		v.Mf.Ents = append(v.Mf.Ents, Ent{N: f, Da: []string{}, Ds: []Ds{{"sha1", "good"}}})
		sf.Ents = append(sf.Ents, Ent{N: f, Da: []string{}, Ds: []Ds{{"sha1", "good"}}})
	}
	ext := map[string]string{"rsa": "RSA", "ec": "EC", "dsa": "DSA"}[keys[key].typ]
	v.Signers = append(v.Signers, V1Signer{Base: "CERT", Ext: ext, Sf: sf, Pk: PK{St: "ok", Certs: []string{key},
		Infos: []Info{{Da: da, Dea: dea, K: key, Cert: key, M: hash, O: "this", F: "ok", Sa: SA{St: "none", Ct: "data", Md: "good"}}}}})
	return v
}

func validApk() *Apk {
	a := &Apk{Zip: Zip{"none", "none", "ok", false, "none"}, Files: []FileE{{"classes.dex", "a", "deflate", false}, {"res/x.txt", "b", "store", false}},
		Am: AM{"ok", 14, 27, -1}, Stf: "absent", Sb: SB{St: "ok", Dmg: "none"}}
	a.Sb.Pairs = []Pair{
		{ID: "v2", Fr: "ok", Signers: []Signer{validSigner("rsa256", "rsaA", 0, 0)}},
		{ID: "v3", Fr: "ok", Signers: []Signer{validSigner("rsa256", "rsaA", 24, maxInt)}},
	}
	a.V1 = validV1([]string{"classes.dex", "res/x.txt", "AndroidManifest.xml"}, "rsaA", "sha256", "rsa", "sha256")
	return a
}

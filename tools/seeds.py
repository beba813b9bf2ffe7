S = 'signingblock/'
P7PRE = """package pkcs7

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"testing"
	"time"
)

func zzCert(t *testing.T, serial int64, name string) (*x509.Certificate, *rsa.PrivateKey) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0),
		KeyUsage: x509.KeyUsageKeyAgreement | x509.KeyUsageDecipherOnly}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	return c, k
}
"""
SEEDS = [
 dict(id='C01-verity-level', property='C01', needs='a verity signature over exactly 128 (or 128*128) pages of protected data',
  breaks='the verity tree gets one level too many, so the digest of such files is not the one that was signed and correctly signed files are rejected',
  edits=[(S+'verity.go', 'if chunkCount*digestSize <= verityChunkSize {', 'if chunkCount*digestSize < verityChunkSize {')]),
 dict(id='C02-any-cert', property='C02', needs='a signer whose list of certificates starts with somebody else\'s certificate and has the own one further back',
  breaks='the signer counts although its first certificate belongs to another key, and the APK is reported as signed by that certificate',
  edits=[(S+'signer.go', '''	if !bytes.Equal(mainCert.RawSubjectPublicKeyInfo, s.publicKeyBytes) {
		s.result.addError("Public key mismatch between certificate and signature record")
		return
	}

	return mainCert, true
''', '''	for _, cert := range certAdder.Certs {
		if bytes.Equal(cert.RawSubjectPublicKeyInfo, s.publicKeyBytes) {
			return mainCert, true
		}
	}

	s.result.addError("Public key mismatch between certificate and signature record")
	return
''')]),
 dict(id='C03-v31-from-32', property='C03', needs='an APK with v3.1 and an SDK range that ends at 32',
  breaks='v3.1 is used for a range whose platforms do not know it', 
  edits=[('apilevel/levels.go', 'return level >= V13_0_TIRAMISU', 'return level >= V12_1_S_V2')]),
 dict(id='C04-max-instead-of-min', property='C04', needs='a range with platforms on both sides of API level 24 and an APK whose JAR signature is missing or broken',
  breaks='the JAR signature that the platforms below 24 rely on is not checked',
  edits=[('apkverifier.go', 'apilevel.SupportsSigV2(minSdkVersion) && signingBlockError == nil', 'apilevel.SupportsSigV2(maxSdkVersion) && signingBlockError == nil')]),
 dict(id='C05-bad-token', property='C05', needs='an X-Android-APK-Signed attribute with something else than a number before the 2 or 3',
  breaks='the rest of the list is ignored and an APK whose signing block was stripped is accepted',
  edits=[('schemev1.go', '''				if tok == "" {
					continue
				}

				id, err := strconv.ParseInt(tok, 10, 32)
				if err != nil {
					continue
				}
''', '''				id, err := strconv.ParseInt(tok, 10, 32)
				if err != nil {
					break
				}
''')]),
 dict(id='C06-unknown-attr-ends', property='C06', needs='a v2 signer with an unknown attribute before the stripping protection one, and a stripped v3 block',
  breaks='the stripping protection attribute is not seen',
  edits=[(S+'schemev2.go', '''			result.addWarning("unknown additional attribute id 0x%x", uint32(id))
''', '''			result.addWarning("unknown additional attribute id 0x%x", uint32(id))
			return
''')]),
 dict(id='C07-fallback-at-28', property='C07', needs='an APK with a broken v3 and a valid v2 block checked for a range that starts exactly at 28',
  breaks='the broken v3 block is ignored although every platform in the range uses it',
  edits=[(S+'signingblock.go', 'minSdkVersion < apilevel.V9_0_Pie && blocks', 'minSdkVersion <= apilevel.V9_0_Pie && blocks')]),
 dict(id='C08-overlap', property='C08', needs='two v3 signers whose SDK ranges overlap',
  breaks='signers with overlapping ranges are accepted',
  edits=[(S+'schemev3.go', '} else if currentMin != lastMax+1 {', '} else if currentMin > lastMax+1 {')]),
 dict(id='C09-duplicate-neighbour', property='C09', needs='a proof of rotation that returns to an earlier certificate',
  breaks='a lineage that lists a certificate twice, not next to each other, is reported as valid',
  edits=[(S+'schemev3.go', '''		for _, histCert := range certHistory {
			if histCert.Equal(lastCert) {
				return nil, fmt.Errorf("encountered duplicate entries at node #%d, signing certificates should be unique.", nodeCount)
			}
		}
''', '''		if n := len(certHistory); n != 0 && certHistory[n-1].Equal(lastCert) {
			return nil, fmt.Errorf("encountered duplicate entries at node #%d, signing certificates should be unique.", nodeCount)
		}
''')]),
 dict(id='C10-rotation-later', property='C10', needs='a v3 base that says rotation starts later than the v3.1 block says',
  breaks='the two blocks contradict each other, yet the APK is accepted',
  edits=[(S+'schemev3.go', 'if s.rotationMinSdkVersion != currentAttrMinSdk {', 'if s.rotationMinSdkVersion > currentAttrMinSdk {')]),
 dict(id='C11-stamp-file', property='C11', needs='a file named stamp-cert-sha256 added to (or changed in) an APK signed with a JAR signature only',
  breaks='the file is not covered by the signature, yet the APK is accepted',
  edits=[('schemev1.go', '''			required = append(required, path)
		}
''', '''			if path != "stamp-cert-sha256" { // added by bundletool
				required = append(required, path)
			}
		}
''')]),
 dict(id='C08-lower-clamp', property='C08', needs='v3 signers that start at SDK 28 and a checked range that starts at 25, 26 or 27',
  breaks='a signer set that covers everything v3 is used for is rejected as incomplete',
  edits=[(S+'schemev3.go', 'if requestedMinSdkVersion < apilevel.V9_0_Pie {', 'if requestedMinSdkVersion <= apilevel.V7_0_Nougat {')]),
 dict(id='C01-strong-digest-only', property='C01', needs='two signers, one with a SHA-512 digest and one with a SHA-256 digest that is wrong',
  breaks='the content digest of one of the accepted signers does not cover the file, yet it is accepted',
  edits=[(S+'signingblock.go', '''	contentDigests := s.extractCerts(scheme, block, res)
	if len(res.Certs) == 0 {''', '''	contentDigests := s.extractCerts(scheme, block, res)
	if _, prs := contentDigests[digestChunkedSha512]; prs {
		delete(contentDigests, digestChunkedSha256) // saves hashing everything twice
	}
	if len(res.Certs) == 0 {''')]),
 dict(id='C11-one-way-match', property='C11', needs='three signers, two of them with one certificate, each listing only some of the files',
  breaks='some files are not signed by all the signers, yet the APK is accepted',
  edits=[('schemev1.go', '''	for _, cb := range b {
		found := false
		for _, ca := range a {
			if p.chainEqual(ca, cb) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
''', '''	return true
''')]),
 dict(id='C12-first-info', property='C12', needs='a signature block whose first SignerInfo is broken and a later one is valid, and a range with platforms on both sides of 24',
  breaks='the APK is accepted although platforms before 24 only look at the first SignerInfo, which does not verify',
  edits=[('schemev1.go', '''	if minSdkVersion < apilevel.V7_0_Nougat {
		signers = signers[:1]''', '''	if maxSdkVersion < apilevel.V7_0_Nougat {
		signers = signers[:1]''')]),
 dict(id='C13-exactly-18', property='C13', needs='a range that ends exactly at API level 18 and starts below it, and a broken digest only platforms from 18 on look at',
  breaks='the digest platform 18 would check is not checked',
  edits=[('schemev1.go', 'if maxSdkVersion >= 18 {', 'if maxSdkVersion > 18 {')]),
 dict(id='C14-sandbox-2-only', property='C14', needs='an APK for sandbox version 3 or higher with only a JAR signature',
  breaks='it is accepted without a signing block',
  edits=[('apkverifier.go', 'sandboxVersion > 1 &&', 'sandboxVersion == 2 &&')]),
 dict(id='C16-dex-with-block', property='C16', needs='an APK that starts with a DEX header, has a valid signing block, and a range starting below 24',
  breaks='the DEX header is not flagged although old platforms in range would run it',
  edits=[('apkverifier.go', '} else if fileMagic == dexHeaderMagic {', '} else if fileMagic == dexHeaderMagic && res.SigningSchemeId == 1 {')]),
 dict(id='C17-size-32-bits', property='C17', needs='a signing block whose two size fields differ only in the upper 32 bits',
  breaks='the malformed signing block is taken for a good one',
  edits=[(S+'signingblock.go', 'blockSizeHeader := binary.LittleEndian.Uint64(block); blockSizeHeader != blockSizeFooter', 'blockSizeHeader := binary.LittleEndian.Uint32(block); blockSizeHeader != uint32(blockSizeFooter)')]),
 dict(id='C18-unknown-algorithm', property='C18', needs='a signer with an additional signature of an unknown algorithm',
  breaks='a valid APK that also has a signature of a future algorithm is rejected',
  edits=[(S+'signer.go', """		s.signaturesAlgos = append(s.signaturesAlgos, algo)
		if !algo.isSupported() {
			s.result.addWarning("signature %d is using unsupported algorithm %s", signatureCount, algo.String())
			continue
		}
""", """		if !algo.isSupported() {
			s.result.addWarning("signature %d is using unsupported algorithm %s", signatureCount, algo.String())
			continue
		}
		s.signaturesAlgos = append(s.signaturesAlgos, algo)
""")]),
 dict(id='C19-stamp-other-scheme', property='C19', needs='a source stamp that has only a signature for another scheme than the verified one, over the same content digests',
  breaks='the stamp is reported clean although it was not made for the scheme that counts',
  edits=[(S+'sourcestamp.go', 'if schemeId == neededSchemeId {', 'if schemeId == neededSchemeId || (signaturesBlock == nil && schemeId >= schemeIdV2) {')]),
 dict(id='C19-stamp-digest-length', property='C19', needs='a stamp file that begins with the digest of the stamp certificate and goes on after it',
  breaks='the stamp is reported clean although the file is not the digest of its certificate',
  edits=[(S+'sourcestamp.go', '!bytes.Equal(certSha256[:], srcStampHash)', '!bytes.HasPrefix(srcStampHash, certSha256[:])')]),
 dict(id='C19-stamp-remainder', property='C19', needs='a stamp block without attributes in which a few more bytes follow the signatures',
  breaks='bytes where the signed attributes belong, and which are none, do not make the stamp invalid',
  edits=[(S+'sourcestamp.go', 'if stampBlock.Len() != 0 {', 'if stampBlock.Len() > 8 {')]),
 dict(id='C21-stamp-digest-order', property='C21', needs='a stamped APK with content digests of two kinds, verified several times',
  breaks='the stamp verifies in some runs and not in others, depending on the order of map iteration',
  edits=[(S+'sourcestamp.go', """	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].algo < pairs[j].algo
	})

""", ""), (S+'sourcestamp.go', """	"math"
	"sort"
""", """	"math"
""")]),
 dict(id='C21-manifest-defaults', property='C21', needs='an APK for sandbox version 2 verified before one whose manifest does not give the version',
  breaks='what the manifest of one APK says is used for the next one',
  edits=[('apkverifier.go', """func getManifestInfo(""", """var manifestState = sandboxVersionEncoder{sandboxVersion: 1}

func getManifestInfo("""), ('apkverifier.go', """		if err = apkparser.ParseXml(manifest, &enc, nil); err != nil {
			err = fmt""", """		manifestState.minSdkVersion, manifestState.targetSdkVersion, manifestState.depth = enc.minSdkVersion, enc.targetSdkVersion, 0
		if err = apkparser.ParseXml(manifest, &manifestState, nil); err != nil {
			err = fmt"""), ('apkverifier.go', """		return enc.minSdkVersion, enc.targetSdkVersion, enc.sandboxVersion, nil""", """		return manifestState.minSdkVersion, manifestState.targetSdkVersion, manifestState.sandboxVersion, nil""")]),
 dict(id='C22-scratch-buffer', property='C22', needs='two verifications running at the same time',
  breaks='both compute their digests in the same memory, so the verdict depends on the schedule',
  edits=[(S+'signingblock.go', """func (s *signingBlock) computeOneMbChunkContentDigests(""", """var scratchDigests [4][1 << 20]byte

func (s *signingBlock) computeOneMbChunkContentDigests("""),
   (S+'signingblock.go', """		buf := make([]byte, 5+totalChunkCount*int64(algo.Hash().Size()))
""", """		var buf []byte
		if n := 5 + totalChunkCount*int64(algo.Hash().Size()); n <= int64(len(scratchDigests[i])) {
			buf = scratchDigests[i][:n]
		} else {
			buf = make([]byte, n)
		}
""")],
  demo=('.', """package apkverifier

import (
	"bytes"
	"os"
	"path/filepath"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan error, 8)
	for i := 0; i < 8; i++ {
		b, err := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), string(rune('a'+i%2))+".apk"))
		if err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 3000; n++ {
				if _, err := VerifyWithSdkVersionReader(bytes.NewReader(b), nil, 24, 30); err != nil {
					bad <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-bad:
		t.Fatal(err)
	default:
	}
}
""")),
 dict(id='C24-no-signer-infos', property='C24', needs='a JAR signature block without any SignerInfo and a range starting below 24',
  breaks='verification crashes instead of returning an error',
  edits=[('schemev1.go', """	if len(sig.cert.Signers) == 0 {
		return nil, errors.New("Empty signers slice!")
	}

	signers := sig.cert.GetSignerInfos()
""", """	signers := sig.cert.GetSignerInfos()
""")]),
 dict(id='C25-broken-block', property='C25', needs='an APK with a signing block that cannot be parsed and a JAR signature',
  breaks='extraction reports certificates of the JAR signature although verification goes by the signing block',
  edits=[('apkverifier.go', """	if !signingblock.IsSigningBlockNotFoundError(signingBlockError) {
		return certs, signingBlockError
	}

	var certsv1""", """	if signingBlockError == nil {
		return certs, nil
	}

	var certsv1""")]),
 dict(id='C26-organizations', property='C26', needs='a certificate whose subject lists several organizational units',
  breaks='the description names only the first one',
  edits=[(S+'utils.go', """fmt.Fprintf(&buf, "OU=%s, ", strings.Join(n.OrganizationalUnit, ";"))""", """fmt.Fprintf(&buf, "OU=%s, ", n.OrganizationalUnit[0])""")],
  demo=('.', """package apkverifier

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := &x509.Certificate{Subject: pkix.Name{Organization: []string{"o"}, OrganizationalUnit: []string{"a", "b"}}}
	if got := NewCertInfo(c).Subject; got != "O=o, OU=a;b" {
		t.Fatal(got)
	}
}
""")),

 dict(id='C12-last-info', property='C12', needs='a signature block with two valid SignerInfos of different certificates and a range that starts at 24 or later',
  breaks='the last valid signer is reported where platforms take the first one',
  edits=[('schemev1.go', """		if firstVerifiedSignerCert == nil {
			firstVerifiedSignerCert = signerCert
		}
	}
""", """		firstVerifiedSignerCert = signerCert
	}
""")]),
 dict(id='C14-target-raised', property='C14', needs='a manifest whose target SDK is below its minimum SDK, which is 30 or more',
  breaks='the target is taken to be the minimum and the APK with only a JAR signature is rejected',
  edits=[('apkverifier.go', """		if err == nil {
			e.targetSdkVersion = val
""", """		if err == nil {
			if val < e.minSdkVersion {
				val = e.minSdkVersion
			}
			e.targetSdkVersion = val
""")]),
 dict(id='C15-attribute-prefix', property='C15', needs='a uses-sdk element with another attribute whose name starts with minSdkVersion',
  breaks='the lower bound is taken from the wrong attribute',
  edits=[('apkverifier.go', """		if attr.Name.Local == name {""", """		if strings.HasPrefix(attr.Name.Local, name) {""")]),
 dict(id='C15-raised-lower-bound', property='C15', needs='an explicit lower bound below the manifest\'s minSdkVersion and a range that reaches 26',
  breaks='the manifest replaces a lower bound the caller gave',
  edits=[('apkverifier.go', """			if minSdkVersion == apilevel.V_AnyMin {
				minSdkVersion = manifestMinSdkVersion
			}
""", """			if minSdkVersion < manifestMinSdkVersion {
				minSdkVersion = manifestMinSdkVersion
			}
""")]),
 dict(id='C20-disabled-entries', property='C20', needs='frosting metadata with a disabled entry before the first enabled one',
  breaks='the enabled entry is checked against the signature of a disabled one',
  edits=[(S+'frosting.go', """	for signatureIdx := 0; signatureIdx < math.MaxInt16; signatureIdx++ {
""", """	signatureIdx := 0
	for entryIdx := 0; entryIdx < math.MaxInt16; entryIdx++ {
""")],
  demo=('.', """package apkverifier

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/avast/apkverifier/signingblock"
)

// The signature of the enabled entry is a proper one by a key nobody trusts, that of the disabled entry is not of the trusted key's kind.
func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), "a.apk"))
	if err != nil {
		t.Fatal(err)
	}
	r, _, err := signingblock.VerifySigningBlockReader(bytes.NewReader(b), 24, 30)
	if err != nil || r.Frosting == nil || r.Frosting.Error != signingblock.ErrFrostingInvalidSignature {
		t.Fatal(err, r.Frosting)
	}
}
""")),
 dict(id='C23-short-footer', property='C23', needs='a reader that returns fewer bytes than asked for just before the central directory',
  breaks='the signing block is overlooked and the JAR signature alone decides',
  edits=[(S+'signingblock.go', """	if _, err = io.ReadFull(s.file, footer); err != nil {""", """	if _, err = s.file.Read(footer); err != nil {""")],
  demo=('.', """package apkverifier

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

type shortReader struct{ *bytes.Reader }

func (r shortReader) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return r.Reader.Read(p)
}

func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), "a.apk"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := VerifyWithSdkVersionReader(bytes.NewReader(b), nil, 21, 30); err == nil {
		t.Fatal("accepted an APK with a broken v2 signature")
	}
	if r, err := VerifyWithSdkVersionReader(shortReader{bytes.NewReader(b)}, nil, 21, 30); err == nil {
		t.Fatal("accepted an APK with a broken v2 signature, scheme", r.SigningSchemeId)
	}
}
""")),
 dict(id='C27-any-signer', property='C27', needs='a message with several signers, one of which is not valid',
  breaks='one valid signer is enough',
  edits=[('fullsailor/pkcs7/pkcs7.go', """	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil
}
""", """	for _, signer := range p7.Signers {
		if err = verifySignature(p7, signer); err == nil {
			return nil
		}
	}
	return err
}
""")],
  demo=('fullsailor/pkcs7', P7PRE + """
func TestZZDemo(t *testing.T) {
	a, ka := zzCert(t, 1, "a")
	b, kb := zzCert(t, 2, "b")
	sd, err := NewSignedData([]byte("content"))
	if err != nil {
		t.Fatal(err)
	}
	if err := sd.AddSigner(a, ka, SignerInfoConfig{}); err != nil {
		t.Fatal(err)
	}
	if err := sd.AddSigner(b, kb, SignerInfoConfig{}); err != nil {
		t.Fatal(err)
	}
	der, err := sd.Finish()
	if err != nil {
		t.Fatal(err)
	}
	p7, err := Parse(der)
	if err != nil || p7.Verify() != nil {
		t.Fatal(err, p7.Verify())
	}
	for i := range p7.Signers {
		p7, _ := Parse(append([]byte{}, der...))
		p7.Signers[i].EncryptedDigest = append([]byte{}, p7.Signers[i].EncryptedDigest...)
		p7.Signers[i].EncryptedDigest[5] ^= 1
		if p7.Verify() == nil {
			t.Fatal("verified with a broken signature of signer", i)
		}
	}
}
""")),
 dict(id='C28-same-serial', property='C28', needs='two recipients whose certificates have the same serial number from different issuers',
  breaks='the second recipient gets the content key meant for the first',
  edits=[('fullsailor/pkcs7/pkcs7.go', """	return cert.SerialNumber.Cmp(ias.SerialNumber) == 0 && bytes.Compare(cert.RawIssuer, ias.IssuerName.FullBytes) == 0
""", """	return cert.SerialNumber.Cmp(ias.SerialNumber) == 0
""")],
  demo=('fullsailor/pkcs7', P7PRE + """
func TestZZDemo(t *testing.T) {
	a, ka := zzCert(t, 7, "a")
	b, kb := zzCert(t, 7, "b")
	for _, alg := range []int{EncryptionAlgorithmDESCBC, EncryptionAlgorithmAES128GCM} {
		ContentEncryptionAlgorithm = alg
		der, err := Encrypt([]byte("content"), []*x509.Certificate{a, b})
		if err != nil {
			t.Fatal(err)
		}
		p7, err := Parse(der)
		if err != nil {
			t.Fatal(err)
		}
		if got, err := p7.Decrypt(a, ka); err != nil || string(got) != "content" {
			t.Fatal("a", err)
		}
		if got, err := p7.Decrypt(b, kb); err != nil || string(got) != "content" {
			t.Fatal("b", err)
		}
	}
}
""")),
 dict(id='C28-padding-first-byte', property='C28', needs='CBC content whose padding is wrong in its first byte only',
  breaks='malformed padding is taken for a valid one',
  edits=[('fullsailor/pkcs7/pkcs7.go', """	pad := data[len(data)-padlen:]
	for _, padbyte := range pad {
		if padbyte != byte(padlen) {
			return nil, errors.New("invalid padding")
		}
	}
""", """	for i := len(data) - 1; i > len(data)-padlen; i-- {
		if data[i] != byte(padlen) {
			return nil, errors.New("invalid padding")
		}
	}
""")],
  demo=('fullsailor/pkcs7', P7PRE + """
func TestZZDemo(t *testing.T) {
	a, ka := zzCert(t, 7, "a")
	ContentEncryptionAlgorithm = EncryptionAlgorithmDESCBC
	der, err := Encrypt([]byte("123456781234"), []*x509.Certificate{a})
	if err != nil {
		t.Fatal(err)
	}
	// two blocks of eight; a change in the first one changes the same byte of the second one
	for i := 4; i < 8; i++ {
		d := append([]byte{}, der...)
		d[len(d)-16+i] ^= 1
		p7, err := Parse(d)
		if err != nil {
			t.Fatal(err)
		}
		if got, err := p7.Decrypt(a, ka); err == nil {
			t.Fatal("decrypted with malformed padding", i, got)
		}
	}
}
""")),
 dict(id='C29-long-name', property='C29', needs='an attribute name of exactly 70 characters',
  breaks='a manifest with such an attribute is refused',
  edits=[('manifest.go', """	if len(name) == 0 || len(name) > 70 { // LINE_LENGTH_LIMIT = 72; - 2 for separator""", """	if len(name) == 0 || len(name) >= 70 { // LINE_LENGTH_LIMIT = 72; - 2 for separator""")]),
 dict(id='C30-key-usage', property='C30', needs='a certificate whose key usage has the ninth bit',
  breaks='decipherOnly is lost',
  edits=[('internal/x509andr/x509.go', """				for i := 0; i < 9; i++ {
					if usageBits.At(i) != 0 {""", """				for i := 0; i < 8; i++ {
					if usageBits.At(i) != 0 {""")],
  demo=('fullsailor/pkcs7', P7PRE + """
func TestZZDemo(t *testing.T) {
	a, _ := zzCert(t, 7, "a")
	der, err := DegenerateCertificate(a.Raw)
	if err != nil {
		t.Fatal(err)
	}
	p7, err := Parse(der)
	if err != nil {
		t.Fatal(err)
	}
	if got := p7.Certificates[0].KeyUsage; got != a.KeyUsage {
		t.Fatal(got, a.KeyUsage)
	}
}
""")),
 dict(id='C31-caps-early-exit', property='C31', needs='capabilities with flag 31 set',
  breaks='the text says there are no capabilities',
  edits=[(S+'schemev3lineage.go', """		mask := LineageCertCaps(1 << i)
		if""", """		mask := LineageCertCaps(1 << i)
		if mask > c {
			break // no further flags
		}
		if""")],
  demo=('signingblock', """package signingblock

import "testing"

func TestZZDemo(t *testing.T) {
	c := LineageCertCaps(-1 << 31)
	if s := c.String(); s == "None" {
		t.Fatal("got", s)
	}
	if s := (c | CapAuth).String(); len(s) < 8 {
		t.Fatal("got", s)
	}
}
""")),
 dict(id='C31-equal-serial', property='C31', needs='two lineages whose certificates differ but share issuer and serial number',
  breaks='they are said to be equal',
  edits=[(S+'schemev3lineage.go', """	if !n.SigningCert.Equal(o.SigningCert) {
""", """	// a certificate is identified by its issuer and serial number
	if !bytes.Equal(n.SigningCert.RawIssuer, o.SigningCert.RawIssuer) || n.SigningCert.SerialNumber.Cmp(o.SigningCert.SerialNumber) != 0 {
""")],
  demo=('signingblock', """package signingblock

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"testing"
	"time"
)

func zzCert(t *testing.T) *x509.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "Android Debug"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func TestZZDemo(t *testing.T) {
	node := func() V3LineageSigningCertificateNodeList {
		return V3LineageSigningCertificateNodeList{{SigningCert: zzCert(t), SigAlgorithm: SigEcdsaWithSha256, Signature: []byte{1}, Flags: 7}}
	}
	a, b := node(), node()
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("got equal lineages of different certificates")
	}
	if !a.Equal(a) {
		t.Fatal("got different from itself")
	}
}
""")),
]

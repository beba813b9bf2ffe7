From 1ea2308492993b014d6fcce4620282c8d75b7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 01/52] fix: verify the content digests of v3.1 signers

The digests signed by the v3.1 signers were parsed but never compared with the
APK when a v3 base block was present, so the content of a v3.1 signed APK was
only protected by the v3 signer.
---
 signingblock/schemev31.go    | 5 +++++
 signingblock/signingblock.go | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..2ff0cfd 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,16 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// The digests signed by the v3.1 signers. They are kept apart from the v3 ones, because
+	// both sets have to match the contents of the APK.
+	v31ContentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
 	v31ContentDigest := make(map[contentDigest][]byte)
 	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.v31ContentDigests = v31ContentDigest
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..54823a4 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -579,6 +579,13 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return contentDigests
 	}
 
+	// Empty only if the v3.1 signers failed to parse, which has already been reported.
+	if v31, ok := scheme.(*schemeV31); ok && len(v31.v31ContentDigests) != 0 {
+		if !s.verifyIntegrity(v31.v31ContentDigests, res) {
+			return contentDigests
+		}
+	}
+
 	scheme.finalizeResult(minSdkVersion, maxSdkVersion, res)
 	return contentDigests
 }
-- 
2.43.0


From e93aefdfecc66afadcc3fb3277c78d0ddee184b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 02/52] fix: verify AndroidManifest.xml with scheme v1

AndroidManifest.xml was left out of the required files unless it was missing
from the APK, so it could be replaced without breaking the v1 signature.
---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..c0d309d 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -453,7 +453,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 			continue
 		}
 
-		if !zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		if !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
-- 
2.43.0


From 74c35d61e0b5afffc3a2c600d243f942851f21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 03/52] fix: compare the parsed max SDK of a v3 signer with the
 signed one

The value was compared with itself, the unsigned maxSdkVersion could be changed
at will.
---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From 27e73561aa465131170f94f144b8667b1708e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 04/52] fix: forget the v3 signers when falling back to v2

The certificates (and lineage) of a rejected v3 block were reported together
with, and before, those of the v2 block that was verified in its place.
---
 signingblock/signingblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 54823a4..05293be 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,10 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		// Nothing the rejected v3 block claimed may be reported as verified.
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From b71d4d4fa9b5bc06b5681e9d6a317b5c9aa46c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 05/52] fix: check X-Android-APK-Signed for scheme v3 as well

An APK which says it was also signed with v3 is not valid on platforms which
support v3 when that signature is gone.
---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index c0d309d..a28d620 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -348,7 +348,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From e6d1920193a77bd467151601a7e3be2731eaa51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 06/52] fix: minimum SDK version of RSA-PSS with SHA-256

It was missing from getMinSdkVersion(), so lineages with such a node got
MinSdkVersion 2147483647.
---
 signingblock/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..a742755 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,7 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0


From 31cc130f48839c41194fa5588b7c36af6343c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 07/52] fix: do not panic on malformed signing block signatures

A signature algorithm which does not fit the public key, an (EC)DSA signature
with less than two integers or a DSA key with Q longer than the hash panicked.
---
 signingblock/utils.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..c2a4053 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,20 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	// The algorithm and the key come from different places of the (untrusted) signing block.
+	keyTypeOk := true
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
+		_, keyTypeOk = publicKey.(*rsa.PublicKey)
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		_, keyTypeOk = publicKey.(*ecdsa.PublicKey)
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		_, keyTypeOk = publicKey.(*dsa.PublicKey)
+	}
+	if !keyTypeOk {
+		return fmt.Errorf("unexpected public key type %T for signature algorithm %s", publicKey, algo.String())
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -59,6 +73,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
 		}
+		if len(params) < 2 {
+			return fmt.Errorf("invalid number of integers in the signature: %d", len(params))
+		}
 
 		var hashed []byte
 		switch algo {
@@ -74,7 +91,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
 			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			if qlen := k.Q.BitLen() / 8; qlen < len(hashed) {
+				hashed = hashed[:qlen]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
-- 
2.43.0


From 2d16d462ed324d5cf2f79756c8013c16aa2426e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 08/52] fix: do not panic on malformed v1 signatures

Unknown digest algorithms, DSA algorithms with a non-DSA key and manifests
ending with a colon panicked.
---
 manifest.go | 2 +-
 schemev1.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
diff --git a/schemev1.go b/schemev1.go
index a28d620..5db3cf5 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -694,7 +694,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -861,7 +861,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From ddf88fbd10c2fed926082c22bc4b6085439dca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 09/52] fix: do not panic on malformed PKCS#7 input

Truncated or deeply nested BER, bad CBC padding or ciphertext length and
non-RSA keys panicked.
---
 fullsailor/pkcs7/ber.go   | 30 +++++++++++++++++++++++++-----
 fullsailor/pkcs7/pkcs7.go | 12 +++++++++---
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..f5269ed 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -61,7 +61,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +132,32 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxDepth is the maximum depth of nested objects, to not run out of the stack
+const maxDepth = 128
+
+var errTruncated = errors.New("ber2der: BER object is truncated")
+
+func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxDepth {
+		return nil, 0, errors.New("ber2der: BER objects nested too deeply")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -158,6 +172,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		}
 	*/
 	// read length
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	var length int
 	l := ber[offset]
 	offset++
@@ -167,6 +184,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -189,7 +209,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 
 	//fmt.Printf("--> length        : %d\n", length)
 	contentEnd := offset + length
-	if contentEnd > len(ber) {
+	if length > len(ber)-offset {
 		return nil, 0, errors.New("ber2der: BER tag length is more than available data")
 	}
 	//fmt.Printf("--> content start : %d\n", offset)
@@ -210,7 +230,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index f8e882d..5ca41f9 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -368,7 +368,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 	if recipient.EncryptedKey == nil {
 		return nil, errors.New("pkcs7: no enveloped recipient for provided certificate")
 	}
-	if priv := pk.(*rsa.PrivateKey); priv != nil {
+	if priv, ok := pk.(*rsa.PrivateKey); ok && priv != nil {
 		var contentKey []byte
 		contentKey, err := rsa.DecryptPKCS1v15(rand.Reader, priv, recipient.EncryptedKey)
 		if err != nil {
@@ -376,7 +376,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 		}
 		return data.EncryptedContentInfo.decrypt(contentKey)
 	}
-	fmt.Printf("Unsupported Private Key: %v\n", pk)
+	fmt.Printf("Unsupported Private Key: %T\n", pk)
 	return nil, ErrUnsupportedAlgorithm
 }
 
@@ -469,6 +469,9 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 	if len(iv) != block.BlockSize() {
 		return nil, errors.New("pkcs7: encryption algorithm parameters are malformed")
 	}
+	if len(cyphertext)%block.BlockSize() != 0 {
+		return nil, errors.New("pkcs7: encrypted content is not a multiple of the block size")
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	plaintext := make([]byte, len(cyphertext))
 	mode.CryptBlocks(plaintext, cyphertext)
@@ -513,6 +516,9 @@ func unpad(data []byte, blocklen int) ([]byte, error) {
 
 	// the last byte is the length of padding
 	padlen := int(data[len(data)-1])
+	if padlen == 0 || padlen > blocklen {
+		return nil, errors.New("invalid padding")
+	}
 
 	// check padding integrity, all bytes should be the same
 	pad := data[len(data)-padlen:]
@@ -984,7 +990,7 @@ func marshalEncryptedContent(content []byte) asn1.RawValue {
 }
 
 func encryptKey(key []byte, recipient *x509.Certificate) ([]byte, error) {
-	if pub := recipient.PublicKey.(*rsa.PublicKey); pub != nil {
+	if pub, ok := recipient.PublicKey.(*rsa.PublicKey); ok && pub != nil {
 		return rsa.EncryptPKCS1v15(rand.Reader, pub, key)
 	}
 	return nil, ErrUnsupportedAlgorithm
-- 
2.43.0


From ddd04929d51138bf6dfc5864b4ea4af498e45f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 10/52] fix: BER encoded PKCS#7 with empty or segmented objects

An empty indefinite-length object was not recognized as such, and only the
first segment of a constructed OCTET STRING content was used.
---
 fullsailor/pkcs7/ber.go   | 16 ++++++++--------
 fullsailor/pkcs7/pkcs7.go | 10 +++++++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index f5269ed..17b33b4 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -228,14 +228,6 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 	} else {
 		var subObjects []asn1Object
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset, depth+1)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -246,6 +238,14 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(ber, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 5ca41f9..4e00964 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -191,7 +191,15 @@ func parseSignedData(data []byte) (*PKCS7, error) {
 		}
 	}
 	// Compound octet string
-	if compound.IsCompound {
+	if compound.IsCompound && compound.Tag == asn1.TagOctetString {
+		for rest := compound.Bytes; len(rest) != 0; {
+			var part unsignedData
+			if rest, err = asn1andr.Unmarshal(rest, &part); err != nil {
+				return nil, err
+			}
+			content = append(content, part...)
+		}
+	} else if compound.IsCompound {
 		if _, err = asn1andr.Unmarshal(compound.Bytes, &content); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From d0c4afe46b7084e467aa47c55c94a750a956b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 11/52] fix: exponential time parsing of overlapping BER
 objects

A nested object longer than its parent was accepted and the bytes past the
parent's end were then parsed again, at every level: 100 bytes took seconds,
200 bytes practically forever.
---
 fullsailor/pkcs7/ber.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 17b33b4..487e1f4 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -226,6 +226,12 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 			content:  ber[offset:contentEnd],
 		}
 	} else {
+		if !indefinite {
+			// The content has to stay inside of this object. If it could overlap with the
+			// objects which follow, those would be parsed again at every level.
+			ber = ber[:contentEnd]
+		}
+
 		var subObjects []asn1Object
 		for (offset < contentEnd) || indefinite {
 			if indefinite {
-- 
2.43.0


From 9b1c85452ece42d8c0ae287783bb442bb0ff44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 12/52] fix: do not panic on a negative frosting key index

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From 0715d534cc36c909f402c7230f85abd66aff51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 13/52] fix: verify files which have the directory bit set with
 scheme v1

A file with a directory mode in its ZIP attributes was skipped, so that any
file could be added to an APK without breaking its v1 signature.
---
 schemev1.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 5db3cf5..2d585c9 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -449,7 +449,13 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	hasAndroidManifest := false
 	hasBundleConfig := false
 	for path, zf := range apk.File {
-		if zf.IsDir {
+		isDir := zf.IsDir
+		if hdr := zf.ZipHeader(); hdr != nil {
+			// Only the name counts on Android. The file mode, which IsDir also considers, does
+			// not make a directory out of a file.
+			isDir = strings.HasSuffix(hdr.Name, "/")
+		}
+		if isDir {
 			continue
 		}
 
-- 
2.43.0


From 9ecce5ab2c591f5c2617699ca97861795a1488fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 14/52] fix: do not panic on malformed AndroidManifest.xml

---
 apkverifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apkverifier.go b/apkverifier.go
index 556e7f9..26b0f5a 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -233,6 +233,13 @@ func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name strin
 }
 
 func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion, sandboxVersion int32, err error) {
+	// The parser may panic on crafted files
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("failed to parse AndroidManifest.xml: %v", r)
+		}
+	}()
+
 	manifest := zip.File["AndroidManifest.xml"]
 	if manifest == nil {
 		return 1, 0, 1, nil
-- 
2.43.0


From 03d1274ffd4fdc805089c2c54b820703981a8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 15/52] fix: v1 signatures of the same name in different
 directories

Signature blocks were identified by their base name, the later one silently
replaced the earlier one, which was then never verified.
---
 schemev1.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 2d585c9..f6d0073 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -19,7 +19,6 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
-	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
@@ -297,9 +296,8 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 }
 
 func (p *schemeV1) signaturePrefix(pathUpper string) string {
-	fn := filepath.Base(pathUpper)
-	idx := strings.LastIndexByte(fn, '.')
-	return fn[:idx]
+	// Keep the whole path, META-INF/A.RSA and META-INF/B/A.RSA are different signatures.
+	return pathUpper[:strings.LastIndexByte(pathUpper, '.')]
 }
 
 func (p *schemeV1) prepForVerification() error {
-- 
2.43.0


From bc13335777282e2d15c76ddefd456d6110dd7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 16/52] fix: process v1 signatures and files in the ZIP order

As documented at verifySchemeV1(). The map iteration order made the order of
the reported chains (and which ones are reported) random for APKs with several
v1 signers.
---
 schemev1.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index f6d0073..8d8f358 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -128,6 +128,7 @@ type schemeV1Signature struct {
 
 type schemeV1 struct {
 	sigs     map[string]*schemeV1Signature
+	sigOrder []string // keys of sigs, in the order of the signature blocks in the ZIP
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -157,7 +158,8 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	}
 
 	var signatureErrors []error
-	for _, sig := range scheme.sigs {
+	for _, sigName := range scheme.sigOrder {
+		sig := scheme.sigs[sigName]
 		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
@@ -248,12 +250,8 @@ func (p *schemeV1) addManifest(f *apkparser.ZipReaderFile) (err error) {
 }
 
 func (p *schemeV1) addSignatureFile(pathUpper string, f *apkparser.ZipReaderFile) (err error) {
-	prefix := p.signaturePrefix(pathUpper)
-	s := p.sigs[prefix]
-	if s == nil {
-		s = &schemeV1Signature{}
-		p.sigs[prefix] = s
-	}
+	// The signature block has always been added already
+	s := p.sigs[p.signaturePrefix(pathUpper)]
 
 	s.manifestFilename = pathUpper
 	s.signatureManifest, err = parseManifest(f, false)
@@ -285,6 +283,7 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 		if s == nil {
 			s = &schemeV1Signature{}
 			p.sigs[prefix] = s
+			p.sigOrder = append(p.sigOrder, prefix)
 		}
 		s.sigBlockFilename = f.Name
 		s.cert = sig
@@ -305,11 +304,15 @@ func (p *schemeV1) prepForVerification() error {
 		return errors.New("No valid MANIFEST.SF")
 	}
 
-	for prefix, sig := range p.sigs {
-		if sig.cert == nil || sig.signatureManifest == nil {
+	var order []string
+	for _, prefix := range p.sigOrder {
+		if sig := p.sigs[prefix]; sig.cert == nil || sig.signatureManifest == nil {
 			delete(p.sigs, prefix)
+		} else {
+			order = append(order, prefix)
 		}
 	}
+	p.sigOrder = order
 
 	if len(p.sigs) == 0 {
 		return errors.New("No signatures.")
@@ -322,7 +325,9 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	var err error
 	validSignatures := map[string]*schemeV1Signature{}
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	var validOrder []string
+	for _, sigName := range p.sigOrder {
+		sig := p.sigs[sigName]
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -416,10 +421,12 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 		if err == nil {
 			validSignatures[sigName] = sig
+			validOrder = append(validOrder, sigName)
 		}
 	}
 
 	p.sigs = validSignatures
+	p.sigOrder = validOrder
 
 	if len(validSignatures) == 0 {
 		return fmt.Errorf("No valid cert chains found, last error: %v", err)
@@ -446,7 +453,14 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	required := make([]string, 0, len(apk.File))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
+	seen := make(map[string]bool, len(apk.File))
+	for _, zf := range apk.FilesOrdered {
+		path := zf.Name
+		if seen[path] {
+			continue
+		}
+		seen[path] = true
+
 		isDir := zf.IsDir
 		if hdr := zf.ZipHeader(); hdr != nil {
 			// Only the name counts on Android. The file mode, which IsDir also considers, does
@@ -487,7 +501,8 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		var certChains [][]*x509.Certificate
-		for _, sig := range p.sigs {
+		for _, sigName := range p.sigOrder {
+			sig := p.sigs[sigName]
 			if _, prs := sig.signatureManifest.entries[path]; prs {
 				certChains = append(certChains, sig.chain)
 			}
-- 
2.43.0


From fa1cd9a442c786cc44c1a705bad42fa161036aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 17/52] fix: pick the source stamp signatures deterministically

Of equally strong signature algorithms the one to verify was picked by the map
iteration order.
---
 signingblock/sourcestamp.go | 45 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..60288d2 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -216,7 +216,7 @@ func (v *sourceStampVerifier) getSignatureSchemeDigest(contentDigests map[conten
 }
 
 func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificate, signatures *bytes.Buffer) bool {
-	supportedSignatures := map[SignatureAlgorithm][]byte{}
+	var supportedSignatures []sourceStampSignature
 	for count := 0; signatures.Len() != 0; count++ {
 		signature, err := getLenghtPrefixedSlice(signatures)
 		if err != nil {
@@ -240,7 +240,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 			v.addError("failed to parse signature bytes %d: %s", count, err.Error())
 			return false
 		}
-		supportedSignatures[sigAlgoId] = sigBytes.Bytes()
+		supportedSignatures = append(supportedSignatures, sourceStampSignature{sigAlgoId, sigBytes.Bytes()})
 	}
 
 	if len(supportedSignatures) == 0 {
@@ -254,9 +254,9 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 		return false
 	}
 
-	for algo, sigBytes := range toVerify {
-		if err := verifySignature(cert.PublicKey, algo, data, sigBytes); err != nil {
-			v.addError("failed to verify signature %s: %s", algo.String(), err.Error())
+	for _, sig := range toVerify {
+		if err := verifySignature(cert.PublicKey, sig.algo, data, sig.data); err != nil {
+			v.addError("failed to verify signature %s: %s", sig.algo.String(), err.Error())
 			return false
 		}
 	}
@@ -264,17 +264,19 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 	return true
 }
 
-func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
-	type signature struct {
-		algo SignatureAlgorithm
-		data []byte
-	}
+type sourceStampSignature struct {
+	algo SignatureAlgorithm
+	data []byte
+}
 
-	candidates := map[int32]*signature{}
+func (v *sourceStampVerifier) filterSignaturesToVerify(signatures []sourceStampSignature) []sourceStampSignature {
+	// In the order of the signatures, the first one of equally strong ones is used.
+	candidates := map[int32]sourceStampSignature{}
+	var candidateLevels []int32
 
 	var minProvidedSignaturesVersion int32 = math.MaxInt32
-	for algo, content := range signatures {
-		sigMin := algo.getMinSdkVersionJca()
+	for _, sig := range signatures {
+		sigMin := sig.algo.getMinSdkVersionJca()
 		if sigMin > v.maxSdkVersion {
 			continue
 		}
@@ -282,15 +284,18 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 			minProvidedSignaturesVersion = sigMin
 		}
 
-		if c := candidates[sigMin]; c == nil || compareAlgos(algo, c.algo) > 0 {
-			candidates[sigMin] = &signature{algo, content}
+		if c, prs := candidates[sigMin]; !prs {
+			candidates[sigMin] = sig
+			candidateLevels = append(candidateLevels, sigMin)
+		} else if compareAlgos(sig.algo, c.algo) > 0 {
+			candidates[sigMin] = sig
 		}
 	}
 
 	if v.minSdkVersion < minProvidedSignaturesVersion || len(candidates) == 0 {
 		var present []string
-		for algo := range signatures {
-			present = append(present, algo.String())
+		for _, sig := range signatures {
+			present = append(present, sig.algo.String())
 		}
 
 		if len(candidates) == 0 {
@@ -302,9 +307,9 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 		return nil
 	}
 
-	res := make(map[SignatureAlgorithm][]byte, len(candidates))
-	for _, c := range candidates {
-		res[c.algo] = c.data
+	res := make([]sourceStampSignature, 0, len(candidates))
+	for _, level := range candidateLevels {
+		res = append(res, candidates[level])
 	}
 	return res
 }
-- 
2.43.0


From 2a8bf2e4ca19291784e6d0ce1fa073d346a3cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 18/52] fix: failure to read the APK is not a missing signing
 block

I/O errors while looking for the signing block were reported as if there was
none, and the APK was then verified by its v1 signature only.
---
 signingblock/signingblock.go | 43 +++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 05293be..61bcba1 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -131,6 +131,22 @@ func IsSigningBlockNotFoundError(err error) bool {
 	return ok
 }
 
+// ioError is a failure to read the APK, which says nothing about the presence of the signing block.
+type ioError struct {
+	err error
+}
+
+func (e *ioError) Error() string {
+	return "Failed to read the APK: " + e.err.Error()
+}
+
+func wrapFindError(err error) error {
+	if _, ok := err.(*ioError); ok {
+		return err
+	}
+	return &signingBlockNotFoundError{err}
+}
+
 func VerifySigningBlock(path string, minSdkVersion, maxSdkVersion int32) (res *VerificationResult, magic uint32, err error) {
 	f, err := os.Open(path)
 	if err != nil {
@@ -165,7 +181,7 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 		res.Frosting.Error = frosting.verifyApk(r, s.sigBlockOffset, v2block, s.centralDirOffset, s.centralDirSize, s.eocd)
 	}
 	if err != nil {
-		err = &signingBlockNotFoundError{err}
+		err = wrapFindError(err)
 		return
 	}
 
@@ -243,7 +259,7 @@ func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (ce
 	res := &VerificationResult{}
 	blocks, _, err := s.findSignatureBlocks(maxSdkVersion, res)
 	if err != nil {
-		err = &signingBlockNotFoundError{err}
+		err = wrapFindError(err)
 		return
 	}
 
@@ -307,11 +323,11 @@ func (s *signingBlock) findEocdMaxCommentSize(maxCommentSize int) error {
 	bufOffsetInFile := s.fileSize - int64(len(buf))
 
 	if _, err := s.file.Seek(bufOffsetInFile, io.SeekStart); err != nil {
-		return err
+		return &ioError{err}
 	}
 
 	if _, err := io.ReadFull(s.file, buf); err != nil {
-		return err
+		return &ioError{err}
 	}
 
 	maxCommentSize = len(buf) - eocdRecMinSize
@@ -345,21 +361,21 @@ func (s *signingBlock) findEocdMaxCommentSize(maxCommentSize int) error {
 	return errEocdNotFound
 }
 
-func (s *signingBlock) isZip64() bool {
+func (s *signingBlock) isZip64() (bool, error) {
 	locatorPos := s.eocdOffset - zip64LocatorSize
 	if locatorPos < 0 {
-		return false
+		return false, nil
 	}
 
 	if _, err := s.file.Seek(locatorPos, io.SeekStart); err != nil {
-		return false
+		return false, &ioError{err}
 	}
 
 	var magic uint32
 	if err := binary.Read(s.file, binary.LittleEndian, &magic); err != nil {
-		return false
+		return false, &ioError{err}
 	}
-	return magic == zip64LocatorMagic
+	return magic == zip64LocatorMagic, nil
 }
 
 func (s *signingBlock) pickScheme(blocks map[BlockId][]byte, minSdkVersion, maxSdkVersion int32) (schemeId int, scheme signatureBlockScheme, block []byte, err error) {
@@ -398,10 +414,12 @@ func (s *signingBlock) findApkSigningBlock() (block []byte, offset int64, err er
 	footer := make([]byte, 24)
 
 	if _, err = s.file.Seek(s.centralDirOffset-int64(len(footer)), io.SeekStart); err != nil {
+		err = &ioError{err}
 		return
 	}
 
 	if _, err = io.ReadFull(s.file, footer); err != nil {
+		err = &ioError{err}
 		return
 	}
 
@@ -431,10 +449,12 @@ func (s *signingBlock) findApkSigningBlock() (block []byte, offset int64, err er
 
 	block = make([]byte, totalSize)
 	if _, err = s.file.Seek(offset, io.SeekStart); err != nil {
+		err = &ioError{err}
 		return
 	}
 
 	if _, err = io.ReadFull(s.file, block); err != nil {
+		err = &ioError{err}
 		return
 	}
 
@@ -452,7 +472,10 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		return
 	}
 
-	if s.isZip64() {
+	var zip64 bool
+	if zip64, err = s.isZip64(); err != nil {
+		return
+	} else if zip64 {
 		err = errors.New("ZIP64 APK not supported")
 		return
 	}
-- 
2.43.0


From e3776b4a0ebf4cc3f1dd1005f2a14c5d531f3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 19/52] fix: empty entry at the end of the APK Signing Block

bytes.Reader returns EOF for an empty read at its end, the whole signing block
was then considered missing.
---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 61bcba1..749fc2d 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -521,7 +521,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -544,7 +544,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -559,13 +559,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From fd8867ab4bef173416f41f2d0515b14bb1872b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 20/52] fix: failure to read the APK always fails the
 verification

A read error could make the verification skip the manifest checks, ignore a v1
signer or treat the ZIP as a broken one, and still succeed. Short reads of
readers without ReadAt() had the same effect.
---
 apkverifier.go | 19 +++++++++++++++--
 ioerror.go     | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 72 insertions(+), 2 deletions(-)
 create mode 100644 ioerror.go

diff --git a/apkverifier.go b/apkverifier.go
index 26b0f5a..6710a43 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -72,6 +72,14 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
+	ioErrors := &ioErrorReader{r: r}
+	r = ioErrors
+	defer func() {
+		if err == nil && ioErrors.err != nil {
+			err = fmt.Errorf("failed to read the APK: %s", ioErrors.err.Error())
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -154,8 +162,15 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 	return ExtractCertsReader(f, optionalZip)
 }
 
-func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]*x509.Certificate, error) {
-	var err error
+func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) (certs [][]*x509.Certificate, err error) {
+	ioErrors := &ioErrorReader{r: r}
+	r = ioErrors
+	defer func() {
+		if err == nil && ioErrors.err != nil {
+			err = fmt.Errorf("failed to read the APK: %s", ioErrors.err.Error())
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
diff --git a/ioerror.go b/ioerror.go
new file mode 100644
index 0000000..6bdc252
--- /dev/null
+++ b/ioerror.go
@@ -0,0 +1,55 @@
+package apkverifier
+
+import (
+	"io"
+)
+
+// ioErrorReader remembers the first failure to read the APK. Unreadable parts of the APK are often
+// ignored or mean the APK is verified in another way, which is fine for malformed files, but not
+// when the APK could not be read properly.
+type ioErrorReader struct {
+	r   io.ReadSeeker
+	err error
+}
+
+func (r *ioErrorReader) remember(err error) {
+	if err != nil && err != io.EOF && r.err == nil {
+		r.err = err
+	}
+}
+
+func (r *ioErrorReader) Read(p []byte) (int, error) {
+	n, err := r.r.Read(p)
+	r.remember(err)
+	return n, err
+}
+
+func (r *ioErrorReader) Seek(offset int64, whence int) (int64, error) {
+	n, err := r.r.Seek(offset, whence)
+	r.remember(err)
+	return n, err
+}
+
+func (r *ioErrorReader) ReadAt(p []byte, off int64) (int, error) {
+	if readerAt, ok := r.r.(io.ReaderAt); ok {
+		n, err := readerAt.ReadAt(p, off)
+		if off >= 0 { // a negative offset comes from a malformed ZIP
+			r.remember(err)
+		}
+		return n, err
+	}
+
+	if _, err := r.r.Seek(off, io.SeekStart); err != nil {
+		if off >= 0 {
+			r.remember(err)
+		}
+		return 0, err
+	}
+
+	n, err := io.ReadFull(r.r, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+	r.remember(err)
+	return n, err
+}
-- 
2.43.0


From d791668375c347cde00469ae8f2d507177d07e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 21/52] fix: PickBestApkCert ordering of expired certificates

The validity comparison preferred whichever certificate was compared second
and was not a valid ordering, so the pick depended on the order of chains.
---
 certinfo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/certinfo.go b/certinfo.go
index f21b560..04ec854 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -37,11 +37,11 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	now := time.Now()
-	// expired cert is "More" than not-expired one
-	if ci.NotAfter.After(now) || ci.NotBefore.Before(now) {
-		return false
-	} else if cj.NotAfter.After(now) || cj.NotBefore.Before(now) {
-		return true
+	// expired (or not yet valid) cert is "More" than currently valid one
+	ciValid := !now.Before(ci.NotBefore) && !now.After(ci.NotAfter)
+	cjValid := !now.Before(cj.NotBefore) && !now.After(cj.NotAfter)
+	if ciValid != cjValid {
+		return ciValid
 	}
 
 	if !ci.NotBefore.Equal(cj.NotBefore) {
@@ -49,7 +49,7 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	if !ci.NotAfter.Equal(cj.NotAfter) {
-		return ci.NotAfter.Sub(ci.NotBefore) > cj.NotAfter.Sub(cj.NotBefore)
+		return ci.NotAfter.After(cj.NotAfter)
 	}
 	return bytes.Compare(ci.Raw, cj.Raw) > 0
 }
-- 
2.43.0


From 7bfad35abdd07134492a9aaf899b2cbcfcefaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 22/52] fix: verify the signing block of readers with short
 reads

---
 apkverifier.go                           | 13 ++++++------
 ioerror.go => internal/ioerror/reader.go | 25 +++++++++++++++++-------
 signingblock/signingblock.go             |  9 +++++++++
 3 files changed, 34 insertions(+), 13 deletions(-)
 rename ioerror.go => internal/ioerror/reader.go (56%)

diff --git a/apkverifier.go b/apkverifier.go
index 6710a43..2e9842f 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -14,6 +14,7 @@ import (
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/ioerror"
 	"github.com/avast/apkverifier/signingblock"
 )
 
@@ -72,11 +73,11 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
-	ioErrors := &ioErrorReader{r: r}
+	ioErrors := ioerror.NewReader(r)
 	r = ioErrors
 	defer func() {
-		if err == nil && ioErrors.err != nil {
-			err = fmt.Errorf("failed to read the APK: %s", ioErrors.err.Error())
+		if err == nil && ioErrors.Err() != nil {
+			err = fmt.Errorf("failed to read the APK: %s", ioErrors.Err().Error())
 		}
 	}()
 
@@ -163,11 +164,11 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 }
 
 func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) (certs [][]*x509.Certificate, err error) {
-	ioErrors := &ioErrorReader{r: r}
+	ioErrors := ioerror.NewReader(r)
 	r = ioErrors
 	defer func() {
-		if err == nil && ioErrors.err != nil {
-			err = fmt.Errorf("failed to read the APK: %s", ioErrors.err.Error())
+		if err == nil && ioErrors.Err() != nil {
+			err = fmt.Errorf("failed to read the APK: %s", ioErrors.Err().Error())
 		}
 	}()
 
diff --git a/ioerror.go b/internal/ioerror/reader.go
similarity index 56%
rename from ioerror.go
rename to internal/ioerror/reader.go
index 6bdc252..5068c5b 100644
--- a/ioerror.go
+++ b/internal/ioerror/reader.go
@@ -1,36 +1,47 @@
-package apkverifier
+package ioerror
 
 import (
 	"io"
 )
 
-// ioErrorReader remembers the first failure to read the APK. Unreadable parts of the APK are often
+// Reader remembers the first failure to read the APK. Unreadable parts of the APK are often
 // ignored or mean the APK is verified in another way, which is fine for malformed files, but not
 // when the APK could not be read properly.
-type ioErrorReader struct {
+//
+// It also reads from any offset in full from readers which are not io.ReaderAt.
+type Reader struct {
 	r   io.ReadSeeker
 	err error
 }
 
-func (r *ioErrorReader) remember(err error) {
+func NewReader(r io.ReadSeeker) *Reader {
+	return &Reader{r: r}
+}
+
+// Err returns the first failure to read the APK, nil if there was none.
+func (r *Reader) Err() error {
+	return r.err
+}
+
+func (r *Reader) remember(err error) {
 	if err != nil && err != io.EOF && r.err == nil {
 		r.err = err
 	}
 }
 
-func (r *ioErrorReader) Read(p []byte) (int, error) {
+func (r *Reader) Read(p []byte) (int, error) {
 	n, err := r.r.Read(p)
 	r.remember(err)
 	return n, err
 }
 
-func (r *ioErrorReader) Seek(offset int64, whence int) (int64, error) {
+func (r *Reader) Seek(offset int64, whence int) (int64, error) {
 	n, err := r.r.Seek(offset, whence)
 	r.remember(err)
 	return n, err
 }
 
-func (r *ioErrorReader) ReadAt(p []byte, off int64) (int, error) {
+func (r *Reader) ReadAt(p []byte, off int64) (int, error) {
 	if readerAt, ok := r.r.(io.ReaderAt); ok {
 		n, err := readerAt.ReadAt(p, off)
 		if off >= 0 { // a negative offset comes from a malformed ZIP
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 749fc2d..e721348 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -15,6 +15,7 @@ import (
 	"github.com/avast/apkparser"
 
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/ioerror"
 )
 
 // https://source.android.com/security/apksigning/v2.html
@@ -157,6 +158,14 @@ func VerifySigningBlock(path string, minSdkVersion, maxSdkVersion int32) (res *V
 }
 
 func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32, optionalZip *apkparser.ZipReader) (res *VerificationResult, magic uint32, err error) {
+	ioErrors := ioerror.NewReader(r)
+	r = ioErrors
+	defer func() {
+		if err == nil && ioErrors.Err() != nil {
+			err = &ioError{ioErrors.Err()}
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
-- 
2.43.0


From ddd71d0e6bc05faca9ec2987251cd11790e349f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 23/52] fix: report errors of JAR signature entries in a stable
 order

---
 manifest.go | 11 +++++++++++
 schemev1.go |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index 933516f..7db3ced 100644
--- a/manifest.go
+++ b/manifest.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/avast/apkparser"
 	"io/ioutil"
+	"sort"
 	"strings"
 )
 
@@ -29,6 +30,16 @@ type manifest struct {
 	mainAttributtesEnd int
 }
 
+// sortedNames returns the names of the entries in a stable order.
+func (m *manifest) sortedNames() []string {
+	names := make([]string, 0, len(m.entries))
+	for name := range m.entries {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 type manifestParserContext struct {
 	man *manifest
 
diff --git a/schemev1.go b/schemev1.go
index 8d8f358..8af114c 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -394,7 +394,8 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 		// file entries only checked if the whole-manifest fails/is not present
 		if err != nil {
-			for name, attrs := range sm.entries {
+			for _, name := range sm.sortedNames() {
+				attrs := sm.entries[name]
 				err = p.verifyManifestEntry(attrs, attrDigestSuffix, minSdkVersion, maxSdkVersion, func(hash []byte, hasher hash.Hash) error {
 					data, prs := p.manifest.chunks[name]
 					if !prs {
@@ -444,7 +445,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 }
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
-	for path := range p.manifest.entries {
+	for _, path := range p.manifest.sortedNames() {
 		if _, prs := apk.File[path]; !prs {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
-- 
2.43.0


From 19a9f8603e26e781db1eb8ab286375f1b41e498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 24/52] fix: report digest mismatches in a stable order

---
 signingblock/signingblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index e721348..0d1eb58 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"sort"
 
 	"github.com/avast/apkparser"
 
@@ -639,6 +640,9 @@ func (s *signingBlock) verifyIntegrity(expectedDigests map[contentDigest][]byte,
 	for algo := range expectedDigests {
 		digestAlgorithms = append(digestAlgorithms, algo)
 	}
+	sort.Slice(digestAlgorithms, func(i, j int) bool {
+		return digestAlgorithms[i] < digestAlgorithms[j]
+	})
 
 	actualDigests, err := s.computeContentDigests(digestAlgorithms, beforeApkSigningBlock, centralDir, eocd)
 	if err != nil {
-- 
2.43.0


From 06a68962c82acd9c6b2720727c9c2e2b5d9f0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 25/52] fix: an unexpected EOF error of the reader is a failure
 to read

---
 internal/ioerror/reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/ioerror/reader.go b/internal/ioerror/reader.go
index 5068c5b..089bef8 100644
--- a/internal/ioerror/reader.go
+++ b/internal/ioerror/reader.go
@@ -57,10 +57,9 @@ func (r *Reader) ReadAt(p []byte, off int64) (int, error) {
 		return 0, err
 	}
 
-	n, err := io.ReadFull(r.r, p)
+	n, err := io.ReadFull(r, p)
 	if err == io.ErrUnexpectedEOF {
 		err = io.EOF
 	}
-	r.remember(err)
 	return n, err
 }
-- 
2.43.0


From a748b52f8e491ed84e76dc5a7d5b75fed427320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 26/52] fix: do not panic on empty continuation lines in
 manifests

---
 manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/manifest.go b/manifest.go
index 7db3ced..fa2b134 100644
--- a/manifest.go
+++ b/manifest.go
@@ -199,6 +199,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			if ctx.consecutiveLineBreaks == 1 {
 				value += string(ctx.data[mark:last])
 				mark = ctx.pos
+				last = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
 			}
-- 
2.43.0


From 88eff0167b24fb19d1ba0527049620d5895e78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 27/52] fix: quadratic time and memory parsing of manifest
 continuation lines

---
 manifest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index fa2b134..234aa2c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -175,6 +175,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 	mark = ctx.pos
 	last := ctx.pos
 	lastCr := false
+	var buf []byte
 
 	for ctx.pos < len(ctx.data) {
 		next := ctx.data[ctx.pos]
@@ -197,7 +198,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				value += string(ctx.data[mark:last])
+				buf = append(buf, ctx.data[mark:last]...)
 				mark = ctx.pos
 				last = ctx.pos
 				ctx.consecutiveLineBreaks = 0
@@ -213,8 +214,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 	}
 
 	if last > mark {
-		value += string(ctx.data[mark:last])
+		buf = append(buf, ctx.data[mark:last]...)
 	}
+	value = string(buf)
 	singleBlock = ctx.consecutiveLineBreaks > 0
 	return
 }
-- 
2.43.0


From b9222342ff359394c28e793af72e936122221fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 28/52] fix: quadratic time parsing of indefinite length BER
 objects

---
 fullsailor/pkcs7/ber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 487e1f4..a1aebf4 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -272,5 +272,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return bytes.HasPrefix(ber[offset:], []byte{0x0, 0x0}), nil
 }
-- 
2.43.0


From 20e98bbb5a944ce6c805b88b978308f3f59a0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 29/52] fix: hash the file once for repeated digest algorithms

---
 schemev1.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 8af114c..ba0e8f2 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -611,7 +611,14 @@ func (p *schemeV1) verifyManifestEntry(entry map[string]string, digestSuffix str
 		return errNoKnownHashes
 	}
 
+	verified := make(map[string]bool)
 	for _, algo := range toVerify {
+		// the list of algorithms may repeat itself
+		if verified[algo] {
+			continue
+		}
+		verified[algo] = true
+
 		hash64 := entry[algo+digestSuffix]
 
 		hash, err := base64.StdEncoding.DecodeString(hash64)
-- 
2.43.0


From 0c4120bf814523259f4aa63a83b617b1a214fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 30/52] fix: limit the size of RSA and DSA public keys

---
 internal/x509andr/x509.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 548d126..8fad301 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -956,6 +956,13 @@ type distributionPointName struct {
 	RelativeName pkix.RDNSequence `asn1:"optional,tag:1"`
 }
 
+// The limits of BoringSSL, which is what Android uses.
+const (
+	maxRSAModulusBits  = 16 * 1024
+	maxDSAModulusBits  = 10000
+	maxDSASubgroupBits = 256
+)
+
 func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReencode *bool) (interface{}, error) {
 	asn1Data := keyData.PublicKey.RightAlign()
 	switch algo {
@@ -996,6 +1003,11 @@ func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReenco
 			return nil, errors.New("x509: RSA public exponent is not a positive number")
 		}
 
+		// Android does not accept bigger keys either, and verifying with them takes too long.
+		if p.N.BitLen() > maxRSAModulusBits {
+			return nil, errors.New("x509: RSA modulus is too large")
+		}
+
 		pub := &rsa.PublicKey{
 			E: p.E,
 			N: p.N,
@@ -1022,6 +1034,9 @@ func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReenco
 		if p.Sign() <= 0 || params.P.Sign() <= 0 || params.Q.Sign() <= 0 || params.G.Sign() <= 0 {
 			return nil, errors.New("x509: zero or negative DSA parameter")
 		}
+		if params.P.BitLen() > maxDSAModulusBits || params.Q.BitLen() > maxDSASubgroupBits {
+			return nil, errors.New("x509: DSA parameters are too large")
+		}
 		pub := &dsa.PublicKey{
 			Parameters: dsa.Parameters{
 				P: params.P,
-- 
2.43.0


From 38c4f47091b2221c7a3ae49132812e0c266246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 31/52] fix: keep special characters when comparing certificate
 names

pkixCanonicalSeq wrote the escaping backslash, but not the character, so
names that only differ in special characters were considered the same.
---
 schemev1.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemev1.go b/schemev1.go
index ba0e8f2..79d4f40 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -1001,6 +1001,7 @@ func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
 						res.WriteByte(' ')
 					case '"', '\\', ',', '+', '<', '>', ';':
 						res.WriteByte('\\')
+						fallthrough
 					default:
 						res.WriteByte(val[index])
 					}
-- 
2.43.0


From 4832700d9b53bc06a6355819d8f51306ea992c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 32/52] fix: compare encoded certificate names when looking for
 signers

pkix.Name only keeps some of the attributes (not the e-mail address or
domain component, and one common name) and loses the structure, so
different names were considered the same and chains were wrong.
---
 schemev1.go | 57 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 79d4f40..3601f8d 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -689,18 +689,22 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 	for i := range signers {
 		info := &signers[i]
 
-		var issuerSeq pkix.RDNSequence
-		if _, err := asn1andr.Unmarshal(info.IssuerAndSerialNumber.IssuerName.FullBytes, &issuerSeq); err != nil {
+		issuerCanonical, err := p.pkixCanonical(info.IssuerAndSerialNumber.IssuerName.FullBytes)
+		if err != nil {
 			return nil, err
 		}
-		var issuer pkix.Name
-		issuer.FillFromRDNSequence(&issuerSeq)
-		issuerCanonical := p.pkixCanonical(&issuer)
 
 		snum := info.IssuerAndSerialNumber.SerialNumber
 		signerCertIndex := -1
 		for i, crt := range sig.cert.Certificates {
-			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(&crt.Issuer) {
+			if snum.Cmp(crt.SerialNumber) != 0 {
+				continue
+			}
+			crtIssuerCanonical, err := p.pkixCanonical(crt.RawIssuer)
+			if err != nil {
+				return nil, err
+			}
+			if issuerCanonical == crtIssuerCanonical {
 				signerCertIndex = i
 				break
 			}
@@ -796,7 +800,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			signedData = sig.signatureManifest.rawData
 		}
 
-		err := p.checkSignature(signerCert, algo, signedData, info.EncryptedDigest)
+		err = p.checkSignature(signerCert, algo, signedData, info.EncryptedDigest)
 		if err != nil {
 			lastError = err
 			continue
@@ -813,15 +817,23 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 
 	// load cert chain if not self-signed
 	chain = []*x509.Certificate{firstVerifiedSignerCert}
-	if p.pkixCanonical(&firstVerifiedSignerCert.Issuer) == p.pkixCanonical(&firstVerifiedSignerCert.Subject) {
+	issuerCanonical, subjectCanonical, err := p.certNames(firstVerifiedSignerCert)
+	if err != nil {
+		return nil, err
+	}
+	if issuerCanonical == subjectCanonical {
 		return chain, nil
 	}
 
-	issuerCanonical := p.pkixCanonical(&firstVerifiedSignerCert.Issuer)
 	for {
 		var issuerCert *x509.Certificate
+		var nextIssuerCanonical string
 		for _, crt := range sig.cert.Certificates {
-			if issuerCanonical == p.pkixCanonical(&crt.Subject) {
+			nextIssuerCanonical, subjectCanonical, err = p.certNames(crt)
+			if err != nil {
+				return nil, err
+			}
+			if issuerCanonical == subjectCanonical {
 				issuerCert = crt
 				break
 			}
@@ -836,8 +848,8 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			break
 		}
 
-		issuerCanonical = p.pkixCanonical(&issuerCert.Issuer)
-		if issuerCanonical == p.pkixCanonical(&issuerCert.Subject) {
+		issuerCanonical = nextIssuerCanonical
+		if issuerCanonical == subjectCanonical {
 			break
 		}
 	}
@@ -965,8 +977,25 @@ func (a byX501Canonical) Less(i, j int) bool {
 	return false
 }
 
-func (p *schemeV1) pkixCanonical(n *pkix.Name) string {
-	return p.pkixCanonicalSeq(n.ToRDNSequence())
+// certNames returns the canonical forms of the certificate's issuer and subject.
+func (p *schemeV1) certNames(crt *x509.Certificate) (issuer, subject string, err error) {
+	if issuer, err = p.pkixCanonical(crt.RawIssuer); err != nil {
+		return "", "", err
+	}
+	if subject, err = p.pkixCanonical(crt.RawSubject); err != nil {
+		return "", "", err
+	}
+	return issuer, subject, nil
+}
+
+// pkixCanonical works with the encoded name, because pkix.Name only keeps
+// some of the attributes and loses the structure.
+func (p *schemeV1) pkixCanonical(rawName []byte) (string, error) {
+	var seq pkix.RDNSequence
+	if _, err := asn1andr.Unmarshal(rawName, &seq); err != nil {
+		return "", err
+	}
+	return p.pkixCanonicalSeq(seq), nil
 }
 
 func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
-- 
2.43.0


From 6e4a7d5d468c6694ee1d1bd478338f76843d04c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 33/52] fix: pkcs7: Encrypt does not write its padding behind
 the caller's slice

---
 fullsailor/pkcs7/pkcs7.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 4e00964..e878f0c 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -511,7 +511,7 @@ func pad(data []byte, blocklen int) ([]byte, error) {
 		padlen = blocklen
 	}
 	pad := bytes.Repeat([]byte{byte(padlen)}, padlen)
-	return append(data, pad...), nil
+	return append(data[:len(data):len(data)], pad...), nil
 }
 
 func unpad(data []byte, blocklen int) ([]byte, error) {
-- 
2.43.0


From b0ddb8d9d09ea4ea9feb4af0a2a28916efffbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 34/52] fix: asn1andr: decode T61String to UTF-8

---
 internal/asn1andr/asn1.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/asn1andr/asn1.go b/internal/asn1andr/asn1.go
index 2835d26..cf46bbc 100644
--- a/internal/asn1andr/asn1.go
+++ b/internal/asn1andr/asn1.go
@@ -472,9 +472,14 @@ func parseIA5String(bytes []byte) (ret string, err error) {
 // T61String
 
 // parseT61String parses an ASN.1 T61String (8-bit clean string) from the given
-// byte slice and returns it.
+// byte slice and returns it. Like encoding/asn1, it takes the bytes for ISO
+// 8859-1 and returns them encoded as UTF-8.
 func parseT61String(bytes []byte) (ret string, err error) {
-	return string(bytes), nil
+	buf := make([]byte, 0, len(bytes))
+	for _, v := range bytes {
+		buf = utf8.AppendRune(buf, rune(v))
+	}
+	return string(buf), nil
 }
 
 // UTF8String
-- 
2.43.0


From 36be644bd223008edcf98093b4efd14dd368253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 35/52] fix: asn1andr: accept fractional seconds of
 GeneralizedTime

---
 internal/asn1andr/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/asn1andr/asn1.go b/internal/asn1andr/asn1.go
index cf46bbc..ee76296 100644
--- a/internal/asn1andr/asn1.go
+++ b/internal/asn1andr/asn1.go
@@ -367,7 +367,7 @@ func parseUTCTime(bytes []byte) (ret time.Time, err error) {
 // parseGeneralizedTime parses the GeneralizedTime from the given byte slice
 // and returns the resulting time.
 func parseGeneralizedTime(bytes []byte) (ret time.Time, err error) {
-	const formatStr = "20060102150405Z0700"
+	const formatStr = "20060102150405.999999999Z0700"
 	s := string(bytes)
 
 	if ret, err = time.Parse(formatStr, s); err != nil {
-- 
2.43.0


From 1bb2ae3c0e2046ee2f932e5fd46e0459d531a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 36/52] fix: asn1andr: decode BOOLEAN into an interface

---
 internal/asn1andr/asn1.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/asn1andr/asn1.go b/internal/asn1andr/asn1.go
index ee76296..ada893a 100644
--- a/internal/asn1andr/asn1.go
+++ b/internal/asn1andr/asn1.go
@@ -713,6 +713,8 @@ func parseField(v reflect.Value, bytes []byte, initOffset int, params fieldParam
 		if !t.isCompound && t.class == ClassUniversal {
 			innerBytes := bytes[offset : offset+t.length]
 			switch t.tag {
+			case TagBoolean:
+				result, err = parseBool(innerBytes)
 			case TagPrintableString:
 				result, err = parsePrintableString(innerBytes)
 			case TagNumericString:
-- 
2.43.0


From a6ce84387eb0f6bc9d2346a9757f44280362142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 37/52] fix: x509andr: keep the extended key usages of a
 certificate

---
 internal/x509andr/x509.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 8fad301..a4724ea 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1442,8 +1442,10 @@ func andrCertToGoCert(certificate *Certificate) *x509.Certificate {
 	for i := 0; i < ourval.NumField(); i++ {
 		n := ourval.Type().Field(i).Name
 		if n == "ExtKeyUsage" {
-			// ignore reflect.Value.Convert: value of type []x509andr.ExtKeyUsage cannot be converted to type []x509.ExtKeyUsage
-			// not used in Android certs anyway
+			// reflect.Value.Convert cannot convert []x509andr.ExtKeyUsage to []x509.ExtKeyUsage
+			for _, usage := range certificate.ExtKeyUsage {
+				cert.ExtKeyUsage = append(cert.ExtKeyUsage, x509.ExtKeyUsage(usage))
+			}
 			continue
 		}
 
-- 
2.43.0


From 422d85f77e18e98d45fb2e1033e7a3360019625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 38/52] fix: x509andr: critical name constraints do not make a
 certificate unreadable

---
 internal/x509andr/x509.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index a4724ea..af98172 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1251,26 +1251,21 @@ func parseCertificate(in *certificate) (*Certificate, error) {
 					return nil, errors.New("x509: trailing data after X.509 NameConstraints")
 				}
 
-				getDNSNames := func(subtrees []generalSubtree, isCritical bool) (dnsNames []string, err error) {
+				getDNSNames := func(subtrees []generalSubtree) (dnsNames []string) {
 					for _, subtree := range subtrees {
 						if len(subtree.Name) == 0 {
-							if isCritical {
-								return nil, UnhandledCriticalExtension{}
-							}
+							// Not a dNSName: we do the critical check, below.
+							unhandled = true
 							continue
 						}
 						dnsNames = append(dnsNames, subtree.Name)
 					}
 
-					return dnsNames, nil
+					return dnsNames
 				}
 
-				if out.PermittedDNSDomains, err = getDNSNames(constraints.Permitted, e.Critical); err != nil {
-					return out, err
-				}
-				if out.ExcludedDNSDomains, err = getDNSNames(constraints.Excluded, e.Critical); err != nil {
-					return out, err
-				}
+				out.PermittedDNSDomains = getDNSNames(constraints.Permitted)
+				out.ExcludedDNSDomains = getDNSNames(constraints.Excluded)
 				out.PermittedDNSDomainsCritical = e.Critical
 
 			case 31:
-- 
2.43.0


From 4adba1ba1e71c2802a0c741e1517c808024bf26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 39/52] fix: x509andr: all URIs of a CRL distribution point

---
 internal/x509andr/x509.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index af98172..6dafe2e 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1295,15 +1295,15 @@ func parseCertificate(in *certificate) (*Certificate, error) {
 						continue
 					}
 
-					var n asn1.RawValue
-					if _, err := asn1andr.Unmarshal(dp.DistributionPoint.FullName.Bytes, &n); err != nil {
-						return nil, err
-					}
-					// Trailing data after the fullName is
-					// allowed because other elements of
-					// the SEQUENCE can appear.
-
-					if n.Tag == 6 {
+					// The fullName can hold more than one name.
+					for rest := dp.DistributionPoint.FullName.Bytes; len(rest) > 0; {
+						var n asn1.RawValue
+						if rest, err = asn1andr.Unmarshal(rest, &n); err != nil {
+							return nil, err
+						}
+						if n.Tag != 6 {
+							break
+						}
 						out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(n.Bytes))
 					}
 				}
-- 
2.43.0


From 2746cbe6566fcfb658b59c3b9f541a63e18a8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 40/52] fix: x509andr: PSS hash functions without parameters

---
 internal/x509andr/x509.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 6dafe2e..fda50fc 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -399,6 +399,13 @@ func rsaPSSParameters(hashFunc crypto.Hash) asn1.RawValue {
 	return asn1.RawValue{FullBytes: serialized}
 }
 
+// isNullOrAbsent tells whether the parameters of a hash function are NULL or
+// absent, which are to be treated as equivalent, see
+// https://tools.ietf.org/html/rfc4055#section-2.1.
+func isNullOrAbsent(parameters asn1.RawValue) bool {
+	return len(parameters.FullBytes) == 0 || bytes.Equal(parameters.FullBytes, nullBytes)
+}
+
 func getSignatureAlgorithmFromAI(ai pkix.AlgorithmIdentifier) SignatureAlgorithm {
 	if !ai.Algorithm.Equal(oidSignatureRSAPSS) {
 		for _, details := range signatureAlgorithmDetails {
@@ -429,10 +436,10 @@ func getSignatureAlgorithmFromAI(ai pkix.AlgorithmIdentifier) SignatureAlgorithm
 	// https://tools.ietf.org/html/rfc3447#section-8.1), that the
 	// salt length matches the hash length, and that the trailer
 	// field has the default value.
-	if !bytes.Equal(params.Hash.Parameters.FullBytes, nullBytes) ||
+	if !isNullOrAbsent(params.Hash.Parameters) ||
 		!params.MGF.Algorithm.Equal(oidMGF1) ||
 		!mgf1HashFunc.Algorithm.Equal(params.Hash.Algorithm) ||
-		!bytes.Equal(mgf1HashFunc.Parameters.FullBytes, nullBytes) ||
+		!isNullOrAbsent(mgf1HashFunc.Parameters) ||
 		params.TrailerField != 1 {
 		return UnknownSignatureAlgorithm
 	}
-- 
2.43.0


From 8d78cd818788d880750cc8f56e565906d3cb5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 41/52] fix: x509andr: a policy identifier with a large arc
 does not make a certificate unreadable

---
 internal/x509andr/x509.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index fda50fc..9fd961f 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1361,15 +1361,25 @@ func parseCertificate(in *certificate) (*Certificate, error) {
 
 			case 32:
 				// RFC 5280 4.2.1.4: Certificate Policies
-				var policies []policyInformation
+				var policies []struct {
+					Policy asn1.RawValue
+				}
 				if rest, err := asn1andr.Unmarshal(e.Value, &policies); err != nil {
 					return nil, err
 				} else if len(rest) != 0 {
 					return nil, errors.New("x509: trailing data after X.509 certificate policies")
 				}
-				out.PolicyIdentifiers = make([]asn1.ObjectIdentifier, len(policies))
-				for i, policy := range policies {
-					out.PolicyIdentifiers[i] = policy.Policy
+				for _, policy := range policies {
+					var id asn1.ObjectIdentifier
+					if _, err := asn1andr.Unmarshal(policy.Policy.FullBytes, &id); err != nil {
+						_, structural := err.(asn1.StructuralError)
+						if p := policy.Policy; structural && p.Class == asn1.ClassUniversal && p.Tag == asn1.TagOID && !p.IsCompound {
+							// It has an arc too large for asn1.ObjectIdentifier.
+							continue
+						}
+						return nil, err
+					}
+					out.PolicyIdentifiers = append(out.PolicyIdentifiers, id)
 				}
 
 			default:
-- 
2.43.0


From 833a1503d46677fe97ecca89831992af1d8a796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:15 +0000
Subject: [PATCH 42/52] fix: an absent target SDK defaults to the minimum SDK

---
 apkverifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apkverifier.go b/apkverifier.go
index 2e9842f..6e2dc5e 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -222,7 +222,9 @@ func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 		val, err = e.getAttrIntValue(&st, "targetSdkVersion")
 		if err == nil {
 			e.targetSdkVersion = val
-		} else if err != io.EOF {
+		} else if err == io.EOF {
+			e.targetSdkVersion = e.minSdkVersion // the default
+		} else {
 			return err
 		}
 
-- 
2.43.0


From 10986404268677e4227706d58ef572244d2a60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 43/52] fix: read SDK and sandbox versions typed as hexadecimal
 numbers

---
 apkverifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apkverifier.go b/apkverifier.go
index 6e2dc5e..cea0ec7 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
@@ -240,6 +241,12 @@ func (e *sandboxVersionEncoder) Flush() error {
 func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name string) (int32, error) {
 	for _, attr := range st.Attr {
 		if attr.Name.Local == name {
+			if strings.HasPrefix(attr.Value, "0x") { // typed as a hexadecimal number
+				if val, err := strconv.ParseUint(attr.Value[2:], 16, 32); err == nil {
+					return int32(val), nil
+				}
+			}
+
 			val, err := strconv.ParseInt(attr.Value, 10, 32)
 			if err != nil {
 				return 0, fmt.Errorf("failed to decode %s '%s': %s", name, attr.Value, err.Error())
-- 
2.43.0


From 5171f4effa16b980f5dd19ef2a3680739310613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 44/52] fix: read the SDK versions only from uses-sdk directly
 in the root manifest element

---
 apkverifier.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apkverifier.go b/apkverifier.go
index cea0ec7..09af3b5 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -196,23 +196,29 @@ type sandboxVersionEncoder struct {
 	minSdkVersion    int32
 	targetSdkVersion int32
 	sandboxVersion   int32
+	depth            int
 }
 
 func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 	st, ok := t.(xml.StartElement)
 	if !ok {
+		if _, ok := t.(xml.EndElement); ok {
+			e.depth--
+		}
 		return nil
 	}
+	e.depth++
 
-	switch st.Name.Local {
-	case "manifest":
+	// Only the root element and uses-sdk directly inside of it count
+	switch {
+	case e.depth == 1 && st.Name.Local == "manifest":
 		val, err := e.getAttrIntValue(&st, "targetSandboxVersion")
 		if err == nil {
 			e.sandboxVersion = val
 		} else if err != io.EOF {
 			return err
 		}
-	case "uses-sdk":
+	case e.depth == 2 && st.Name.Local == "uses-sdk":
 		val, err := e.getAttrIntValue(&st, "minSdkVersion")
 		if err == nil {
 			e.minSdkVersion = val
@@ -277,7 +283,7 @@ func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion,
 	defer manifest.Close()
 
 	for manifest.Next() {
-		enc := sandboxVersionEncoder{1, 0, 1}
+		enc := sandboxVersionEncoder{minSdkVersion: 1, sandboxVersion: 1}
 		if err = apkparser.ParseXml(manifest, &enc, nil); err != nil {
 			err = fmt.Errorf("failed to parse AndroidManifest.xml: %s", err.Error())
 			return
-- 
2.43.0


From d778daf0364770a34a0cce68e407309b4a16545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 45/52] fix: endless recursion when rendering unknown lineage
 capabilities

---
 signingblock/schemev3lineage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3lineage.go b/signingblock/schemev3lineage.go
index 1edbb1e..bda90b2 100644
--- a/signingblock/schemev3lineage.go
+++ b/signingblock/schemev3lineage.go
@@ -33,7 +33,7 @@ const (
 
 func (c LineageCertCaps) String() string {
 	var values []string
-	for i := uint(0); i < 31; i++ {
+	for i := uint(0); i < 32; i++ {
 		mask := LineageCertCaps(1 << i)
 		if (c & mask) == 0 {
 			continue
@@ -50,7 +50,7 @@ func (c LineageCertCaps) String() string {
 		case CapAuth:
 			values = append(values, "Auth")
 		default:
-			values = append(values, fmt.Sprintf("0x%x", mask))
+			values = append(values, fmt.Sprintf("0x%x", uint32(mask)))
 		}
 	}
 
-- 
2.43.0


From 4c8959fa161f904e5a24725bae94d22c15eb69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:12 +0000
Subject: [PATCH 46/52] fix: of several signing block entries with one id the
 first one counts, as on Android

---
 signingblock/signingblock.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 0d1eb58..3fb1da0 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -500,6 +500,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 	entryCount := 0
 
 	blocks = make(map[BlockId][]byte)
+	seen := make(map[BlockId]bool)
 	for pairs.Len() > 0 {
 		entryCount++
 
@@ -528,7 +529,17 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			return
 		}
 
-		switch bid := BlockId(id); bid {
+		bid := BlockId(id)
+		if seen[bid] {
+			// Android uses the first entry of each id
+			if _, err = pairs.Seek(nextEntryPos, io.SeekStart); err != nil {
+				return
+			}
+			continue
+		}
+		seen[bid] = true
+
+		switch bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
 			if _, err = io.ReadFull(pairs, block); err != nil {
-- 
2.43.0


From 84126546ccd8c3b3d260f2f80de8ad56f363f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 47/52] fix: a source stamp lineage without certificates is an
 error

---
 signingblock/sourcestamp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 60288d2..1717148 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -473,6 +473,11 @@ func (v *sourceStampVerifier) parseStampCertLineage(lineage *bytes.Buffer) []*So
 			Flags:      flags,
 		})
 	}
+
+	if len(res) == 0 {
+		v.addError("the lineage is empty")
+		return nil
+	}
 	return res
 }
 
-- 
2.43.0


From 46f4cfd49a5086aff2ba2193ffd115b17ddcd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 48/52] fix: signed attributes may use every digest algorithm a
 v1 signature may use

---
 schemev1.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 3601f8d..a3a71fd 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -60,6 +60,10 @@ var (
 	oidAttributeMessageDigest = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
 	oidDigestAlgorithmSHA1    = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}
 	oidDigestAlgorithmSHA256  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
+	oidDigestAlgorithmMD5     = asn1.ObjectIdentifier{1, 2, 840, 113549, 2, 5}
+	oidDigestAlgorithmSHA224  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 4}
+	oidDigestAlgorithmSHA384  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 2}
+	oidDigestAlgorithmSHA512  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 3}
 )
 
 var oidToAlgo = map[string]x509.SignatureAlgorithm{
@@ -666,6 +670,14 @@ func (p *schemeV1) getHashForOID(oid asn1.ObjectIdentifier) (crypto.Hash, error)
 		return crypto.SHA1, nil
 	case oid.Equal(oidDigestAlgorithmSHA256):
 		return crypto.SHA256, nil
+	case oid.Equal(oidDigestAlgorithmMD5):
+		return crypto.MD5, nil
+	case oid.Equal(oidDigestAlgorithmSHA224):
+		return crypto.SHA224, nil
+	case oid.Equal(oidDigestAlgorithmSHA384):
+		return crypto.SHA384, nil
+	case oid.Equal(oidDigestAlgorithmSHA512):
+		return crypto.SHA512, nil
 	}
 	return crypto.Hash(0), fmt.Errorf("unsupported hash algorithm oid %s", oid.String())
 }
-- 
2.43.0


From dbf78f5a6f92169431a064037d907d705b2f0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:27 +0000
Subject: [PATCH 49/52] fix: reject DSA and ECDSA signatures with anything
 beside the two numbers

---
 signingblock/utils.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index c2a4053..a625362 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -70,10 +70,12 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		return rsa.VerifyPKCS1v15(publicKey.(*rsa.PublicKey), crypto.SHA512, hashed[:], signature)
 	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
 		var params []*big.Int
-		if _, err := asn1.Unmarshal(signature, &params); err != nil {
+		if rest, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(rest) != 0 {
+			return fmt.Errorf("trailing data after the signature: %d bytes", len(rest))
 		}
-		if len(params) < 2 {
+		if len(params) != 2 {
 			return fmt.Errorf("invalid number of integers in the signature: %d", len(params))
 		}
 
-- 
2.43.0


From 45e7c43e786b03477c7bce782e3eb765d48b62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:29 +0000
Subject: [PATCH 50/52] fix: reject files that share their path with another
 entry in v1 APKs

---
 apkverifier.go |  4 ++++
 schemev1.go    | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/apkverifier.go b/apkverifier.go
index 09af3b5..b8b33ad 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -141,6 +141,10 @@ func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReade
 		res.SignerCerts = certsv1
 	}
 
+	if err == nil {
+		err = checkDuplicateEntries(ioErrors)
+	}
+
 	if sandboxError != nil {
 		err = sandboxError
 	} else if err == nil {
diff --git a/schemev1.go b/schemev1.go
index a3a71fd..c48283b 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -1,6 +1,7 @@
 package apkverifier
 
 import (
+	"archive/zip"
 	"bytes"
 	"crypto"
 	"crypto/dsa"
@@ -19,11 +20,13 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
+	"path"
 	"sort"
 	"strconv"
 	"strings"
 
 	"github.com/avast/apkverifier/internal/asn1andr"
+	"github.com/avast/apkverifier/internal/ioerror"
 
 	"github.com/avast/apkverifier/apilevel"
 
@@ -527,6 +530,38 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	return nil
 }
 
+// checkDuplicateEntries looks for files that share their path with an entry before them.
+// apkparser keeps only the first entry of each path, so the content of the others is never
+// verified. Android refuses to open such APKs.
+func checkDuplicateEntries(r *ioerror.Reader) (err error) {
+	defer func() {
+		if pn := recover(); pn != nil {
+			err = fmt.Errorf("failed to list the ZIP entries: %v", pn)
+		}
+	}()
+
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	zipInfo, err := zip.NewReader(r, size)
+	if err != nil {
+		// Broken central directory, apkparser collected all the entries on its own.
+		return nil
+	}
+
+	seen := make(map[string]bool, len(zipInfo.File))
+	for _, zf := range zipInfo.File {
+		cleanName := path.Clean(zf.Name)
+		if seen[cleanName] && !strings.HasSuffix(zf.Name, "/") && !strings.HasPrefix(cleanName, "META-INF/") {
+			return fmt.Errorf("Duplicate ZIP entry '%s'", zf.Name)
+		}
+		seen[cleanName] = true
+	}
+	return nil
+}
+
 func (p *schemeV1) certChainsMatch(a, b [][]*x509.Certificate) bool {
 	if len(a) != len(b) {
 		return false
-- 
2.43.0


From a6fac82a4ad13d3fc5592626e59e8c8bc200e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 51/52] fix: reject signed attributes with more than one value

---
 fullsailor/pkcs7/pkcs7.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index e878f0c..d1f329d 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -1041,9 +1041,13 @@ func (si *SignerInfo) UnmarshalSignedAttribute(attributeType asn1.ObjectIdentifi
 			}
 
 			found = true
-			if _, err := asn1andr.Unmarshal(attr.Value.Bytes, out); err != nil {
+			rest, err := asn1andr.Unmarshal(attr.Value.Bytes, out)
+			if err != nil {
 				return err
 			}
+			if len(rest) != 0 {
+				return errors.New("pkcs7: attribute has multiple values")
+			}
 		}
 	}
 
-- 
2.43.0


From ea36ef36e7721bdc187bd4f5fd1d98ae14e055e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:09 +0000
Subject: [PATCH 52/52] fix: an APK which ends before the end found at first is
 a failure to read it

---
 internal/ioerror/reader.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/ioerror/reader.go b/internal/ioerror/reader.go
index 089bef8..32c030c 100644
--- a/internal/ioerror/reader.go
+++ b/internal/ioerror/reader.go
@@ -10,8 +10,9 @@ import (
 //
 // It also reads from any offset in full from readers which are not io.ReaderAt.
 type Reader struct {
-	r   io.ReadSeeker
-	err error
+	r         io.ReadSeeker
+	pos, size int64
+	err       error
 }
 
 func NewReader(r io.ReadSeeker) *Reader {
@@ -29,14 +30,29 @@ func (r *Reader) remember(err error) {
 	}
 }
 
+// atEnd tells the end of the APK from the APK ending before where its end has been found to be.
+func (r *Reader) atEnd(err error, pos int64) error {
+	if err == io.EOF && pos < r.size {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func (r *Reader) Read(p []byte) (int, error) {
 	n, err := r.r.Read(p)
-	r.remember(err)
+	r.pos += int64(n)
+	r.remember(r.atEnd(err, r.pos))
 	return n, err
 }
 
 func (r *Reader) Seek(offset int64, whence int) (int64, error) {
 	n, err := r.r.Seek(offset, whence)
+	if err == nil {
+		r.pos = n
+		if offset == 0 && whence == io.SeekEnd {
+			r.size = n
+		}
+	}
 	r.remember(err)
 	return n, err
 }
@@ -45,7 +61,7 @@ func (r *Reader) ReadAt(p []byte, off int64) (int, error) {
 	if readerAt, ok := r.r.(io.ReaderAt); ok {
 		n, err := readerAt.ReadAt(p, off)
 		if off >= 0 { // a negative offset comes from a malformed ZIP
-			r.remember(err)
+			r.remember(r.atEnd(err, off+int64(n)))
 		}
 		return n, err
 	}
@@ -56,6 +72,7 @@ func (r *Reader) ReadAt(p []byte, off int64) (int, error) {
 		}
 		return 0, err
 	}
+	r.pos = off
 
 	n, err := io.ReadFull(r, p)
 	if err == io.ErrUnexpectedEOF {
-- 
2.43.0


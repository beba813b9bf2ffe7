#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state": state} if state else {}))))
SB="signingblock/"
GEN="No test in this repository exercises this code (the 118 fixture tests need APKs that are not here and skip); fixture tests could only sample a handful of the inputs the statement quantifies over. "
V="apkverifier.Verify / VerifyWithSdkVersion(Reader) result"
S="signingblock.VerifySigningBlockReader result"

p("C01","Signing-block schemes bind every protected byte of the file",
  "If an APK is accepted under signature scheme v2, v3 or v3.1, every byte before the APK Signing Block, of the ZIP central directory and of the end-of-central-directory record (its central-directory offset read as the signing block's offset) is exactly what the accepted signer's content digests cover. This holds for the 1 MiB-chunked SHA-256 and SHA-512 digests and the verity tree digest, for every file size and comment length; a correctly digested file is never rejected because of its size or layout.",
  ["inputs"],"all file contents, sizes (in particular around 4096-byte and 1 MiB boundaries), comment lengths, digest kinds and single or multi-byte changes",
  GEN+"Digest chunking is a for-all over sizes and changed positions.",
  [SB+"signingblock.go",SB+"verity.go",SB+"datasource.go"],
  [("chunked digests",SB+"signingblock.go computeOneMbChunkContentDigests"),("verity tree",SB+"verity.go"),("region choice and EOCD patch",SB+"signingblock.go verifyIntegrity")],[V,S])
p("C02","A signing-block signer counts only if its own key signed what is checked",
  "Under schemes v2, v3 and v3.1, every signer listed in the chosen block must be wholly valid: its strongest supported signature verifies over exactly the signed data it ships, with the public key of the first certificate it lists, and the algorithms of its digests and of its signatures are the same list. If any listed signer is broken, or there is no signer, no supported signature or no digest, the APK is rejected; a v2 block with more than 10 signers is rejected, and an accepted APK reports exactly the signers' certificate chains, in order.",
  ["inputs"],"all signer lists: number and order of signers, signature/digest algorithm sequences, keys, certificates, forged or recombined parts",
  GEN+"Any recombination of authentic and forged parts is an input.",
  [SB+"signer.go",SB+"schemev2.go",SB+"schemev3.go",SB+"utils.go"],
  [("best signature choice",SB+"signer.go parseSignatures/compareAlgos"),("signature check",SB+"utils.go verifySignature"),("cert/key match, digest agreement",SB+"signer.go parseCertificates/parseDigests")],[V,S])
p("C03","The scheme used is the strongest one the SDK range supports",
  "With the upper SDK level M of the checked range, a v3.1 block is used if M>=33, else a v3 block if M>=28, else a v2 block if M>=24, otherwise only the JAR (v1) signature counts; the result's scheme id names the scheme that decided. Signature blocks newer than M are not verified and cannot change the verdict, but are handed back among the extra blocks, as is every unrecognised block, unchanged.",
  ["inputs","configurations"],"all combinations of present/valid/invalid scheme blocks, their order, and all SDK ranges",
  GEN+"The decision depends on the cross product of blocks, validity and SDK range.",
  [SB+"signingblock.go","apilevel/levels.go","apkverifier.go"],
  [("scheme choice",SB+"signingblock.go pickScheme/pickAndVerify"),("block collection",SB+"signingblock.go findSignatureBlocks"),("SDK thresholds","apilevel/levels.go")],[V,S])
p("C04","JAR signature is required exactly when old platforms are in range",
  "If a signing block is present for the range and invalid, the APK is rejected whatever its JAR (v1) signature; if it is valid and the range starts at 24 or later, it is accepted without looking at v1. If the range starts below 24, or there is no usable signing block, the v1 signature must also be valid.",
  ["inputs","configurations"],"all combinations of signing-block state, v1 signature state and SDK range",
  GEN+"Combination rules over three independent inputs.",
  ["apkverifier.go",SB+"signingblock.go"],[("combination","apkverifier.go VerifyWithSdkVersionReader")],[V])
p("C05","A stripped signing block cannot be downgraded to the JAR signature",
  "If a validly signed v1 signature file declares that the APK was also signed with scheme v2 (or v3, when the range reaches SDK 28) and no valid signing block is found for a range reaching SDK 24, the APK is rejected. The declaration is a comma-separated list in any spacing and position; other or unparsable ids in it never cause rejection, and with a valid signing block the declaration has no effect.",
  ["inputs","configurations"],"all declared id lists, signers, SDK ranges and signing-block states",
  GEN+"Lists, spacing, signer positions and ranges multiply.",
  ["schemev1.go","apkverifier.go"],[("downgrade check","schemev1.go verify (X-Android-APK-Signed)")],[V])
p("C06","Stripping protection attributes inside v2/v3 signers are enforced",
  "If any v2 signer carries the stripping-protection attribute naming a later scheme, and the range reaches SDK 28, verification under v2 fails unless a block of that scheme is really present but unsupported in the range or was demoted; unknown scheme ids there fail too. If any v3 signer declares a rotation minimum SDK and the range reaches SDK 33, verification fails unless a v3.1 block is present whose lowest signer SDK equals it; outside those ranges the attributes have no effect.",
  ["inputs","configurations"],"all attribute values and positions, signer counts, block sets and SDK ranges",
  GEN,[SB+"schemev2.go",SB+"schemev3.go",SB+"schemev31.go"],
  [("v2 attribute",SB+"schemev2.go verifySigner"),("v3 attribute",SB+"schemev3.go verifySigner")],[V,S])
p("C07","Fallback from v3 to v2 happens only for ranges that include pre-v3 platforms",
  "When v3 verification fails, v2 decides instead only if the range starts below SDK 28 and a v2 block exists; in every other case the APK is rejected. After such a fallback the result is exactly the v2 verdict: scheme id, certificates and lineage contain nothing taken from the failed v3 block, which is only reported through warnings and extra blocks.",
  ["inputs","configurations"],"all ways in which v3 can fail, all v2 states and all SDK ranges",
  GEN,[SB+"signingblock.go"],[("fallback",SB+"signingblock.go VerifySigningBlockReaderWithZip")],[V,S])
p("C08","v3 and v3.1 signers must cover the SDK range without gaps",
  "An APK accepted under v3 has signers whose SDK ranges, sorted, are contiguous and non-overlapping and cover the requested range from SDK 28 (or its later start) to its end; each signer's range is well formed and equal to the range inside its signed data. Under v3.1 the v3.1 signers must reach the end of the range and the v3 signers must cover it up to the lowest v3.1 SDK.",
  ["inputs","configurations"],"all signer range lists (order, gaps, overlaps, mismatched copies) and requested ranges",
  GEN,[SB+"schemev3.go",SB+"schemev31.go"],[("range check",SB+"schemev3.go finalizeResult"),("outer/inner copies",SB+"schemev3.go verifySigner")],[V,S])
p("C09","A reported signing lineage is a valid proof of rotation ending at the signer",
  "Every lineage accepted has version 1, distinct certificates, each node after the first signed by the preceding certificate with the algorithm both sides declare, and ends with the signer's own certificate; otherwise the APK is rejected. Lineages of several signers must be prefixes of the longest and grow with the SDK ranges, and the longest one is what is reported, with its certificates, algorithms and capability flags and its minimum SDK.",
  ["inputs"],"all lineage node sequences, forged or reordered nodes, and multi-signer combinations",
  GEN,[SB+"schemev3.go",SB+"schemev3lineage.go"],[("lineage parse/verify",SB+"schemev3.go readSigningCertificateLineage"),("consolidation",SB+"schemev3.go consolidateLineages"),("ends at signer",SB+"schemev3lineage.go getSubLineage")],[V,S])
p("C10","v3.1 acceptance requires a valid v3.0 base, both covering this content",
  "An APK is accepted under v3.1 only if its v3.1 block and its v3.0 block are both fully valid and the content digests of both match the file; the reported certificates are the v3.1 signers', and the v3.0 result is reported alongside. A rotated identity therefore cannot be grafted onto content its key did not sign.",
  ["inputs","configurations"],"all combinations of genuine, foreign and damaged v3.1 and v3.0 blocks over one file",
  GEN,[SB+"schemev31.go",SB+"signingblock.go"],[("two backends",SB+"schemev31.go parseSigners/finalizeResult"),("digest check",SB+"signingblock.go verify")],[V,S])
p("C11","A v1 acceptance covers every file outside META-INF, and nothing missing",
  "If an APK is accepted on its JAR (v1) signature, every non-directory entry that the archive lists outside META-INF/, AndroidManifest.xml included, has a manifest entry whose digest equals that of its content, every file named in the manifest exists, and every such file is listed by the same set of valid signers (told apart by their certificate chains). No such entry has the path of an entry before it, where it would not be looked at. Changing, adding, removing or renaming such a file makes verification fail; changes inside META-INF/ to unrelated files do not.",
  ["inputs"],"all file sets, contents, compression and order, and any single or multiple file change",
  GEN+"Only one v1 file is in the test data.",["schemev1.go"],[("coverage","schemev1.go verifyMainManifest"),("file digests","schemev1.go verifyFileHash/verifyManifestEntry")],[V])
p("C12","Only signers whose v1 signature really verifies are accepted and reported",
  "A v1 signer counts only if its signature block is a PKCS#7 signature, by a certificate it contains, over exactly its signature file (through signed attributes when present, whose message digest, of any algorithm signatures may use, and, from SDK 24, content type must match, each with exactly one value), and the signature file's digests match the manifest (whole manifest or every listed section, plus the main section when given). An APK with no such signer, with a signature block that is cryptographically wrong, or with more than 10 signers is rejected, and the reported chains are exactly those of the valid signers that list the files, each starting with the signing certificate: the one in the block with the stated serial number and issuer, followed by the one each issuer names. Two names are the same if they have the same attributes in the same structure, up to letter case and surplus spaces.",
  ["inputs","configurations"],"all signature block/file/manifest combinations, multiple signers and signer infos, certificate chains and names, algorithms",
  GEN+"Only one v1 file is in the test data.",["schemev1.go","fullsailor/pkcs7/pkcs7.go"],[("signature","schemev1.go verifySignature/checkSignature"),("SF to manifest","schemev1.go verify")],[V])
p("C13","v1 digests are selected as the platforms in range would",
  "For ranges reaching SDK 18 the strongest digest present in an entry (SHA-512, 384, 256, SHA-1) must match; for ranges starting below 18 the digests those platforms look at (the declared digest-algorithm list, default SHA-1; SHA-384/512 only from SDK 9) must match as well. A digest outside that selection never affects the verdict, and an entry without any usable digest is rejected.",
  ["inputs","configurations"],"all digest-attribute combinations with correct or wrong values, declared lists and SDK ranges",
  GEN,["schemev1.go"],[("selection","schemev1.go getDigestsToVerify/verifyManifestEntry")],[V])
p("C14","Sandbox v2 and target SDK 30+ APKs must not rely on the JAR signature",
  "When the JAR signature is what counts, an APK whose manifest asks for sandbox version 2 or more (range reaching SDK 26) or targets SDK 30 or more (range reaching that target) is rejected unless a signing block of scheme v2 or later verified. With such a block these manifest values never cause rejection. The sandbox version is the root element's targetSandboxVersion (1 if absent), the target SDK that of uses-sdk directly inside the root (the minimum SDK if absent), written as a decimal or hexadecimal number.",
  ["inputs","configurations"],"all manifest sandbox/target values, ranges, and signature states",
  GEN,["apkverifier.go"],[("sandbox rule","apkverifier.go VerifyWithSdkVersionReader"),("manifest parse","apkverifier.go getManifestInfo")],[V])
p("C15","The checked SDK range comes from the caller or else from the APK's manifest",
  "An explicit lower bound is used as given; only the 'any' lower bound is replaced by the manifest's minSdkVersion (1 if the manifest or attribute is absent): that of the uses-sdk element directly inside the root, whatever elements and attributes of whatever names and depth surround it. A lower bound above the upper bound is always rejected, and an unreadable manifest is reported as an error whenever a valid signing block would otherwise decide and the manifest was needed, for the lower bound or because the range starts below 24; with an explicit lower bound of 24 or more a valid signing block decides without the manifest.",
  ["inputs","configurations"],"all manifest SDK attributes (absent, numeric, malformed), missing or damaged manifests, and caller ranges",
  GEN,["apkverifier.go","apilevel/levels.go"],[("range resolution","apkverifier.go VerifyWithSdkVersionReader/getManifestInfo")],[V])
p("C16","A DEX-prefixed APK is flagged exactly when v1 would have accepted it",
  "If a file starting with the DEX magic is otherwise accepted with its JAR signature taking part in the decision, verification returns the mixed-DEX error and nothing else; files not starting with it never get that error, and any other failure takes precedence. A prefix never turns a rejected APK into an accepted one.",
  ["inputs","configurations"],"all prefixes, signature states and SDK ranges",
  GEN,["apkverifier.go",SB+"signingblock.go"],[("magic check","apkverifier.go")],[V])
p("C17","The signing block is located and split strictly; malformed means absent",
  "The signing block is the one ending right at the central directory that the end record (the one whose comment length matches exactly) points to, with equal leading and trailing sizes and in-bounds entries; entries may appear in any order, with unknown ids and padding in between; of several entries with one id the first counts. A file whose end record, directory position, block size or entries are inconsistent, or that is ZIP64, is treated as having no signing block, so that only the v1 rules (with downgrade protection) can accept it.",
  ["inputs"],"all ZIP comment lengths and contents, end-record fields, block framing and entry lists",
  GEN,[SB+"signingblock.go"],[("locating",SB+"signingblock.go findEocd/findApkSigningBlock"),("entries",SB+"signingblock.go findSignatureBlocks")],[V,S])
p("C18","Unknown extensions are tolerated and never weaken verification",
  "Adding unrecognised block entries, unsupported signature algorithms, or unknown signer attributes to an otherwise correctly signed APK leaves the verdict, scheme and certificates unchanged. Unsupported or weaker signatures are never consulted when a stronger supported one is present: neither a wrong weaker one breaks nor a right weaker one rescues.",
  ["inputs"],"all positions and values of unknown ids, algorithms and attributes, and orders of signature records",
  GEN,[SB+"signer.go",SB+"schemev2.go",SB+"schemev3.go",SB+"signingblock.go"],[("ignored algorithms",SB+"signer.go parseSignatures"),("ignored attributes",SB+"schemev2.go, schemev3.go")],[V,S])
p("C19","A source stamp is reported clean only if it is bound to this APK",
  "For an accepted APK, a stamp result without errors and warnings is returned only if the stamp certificate's hash equals the one stored in the APK, its signature over the content digests of the scheme that verified this APK is valid with an algorithm set adequate for the SDK range, and its signed attributes (signing time, non-empty rotation lineage ending at the stamp certificate) verify. A stamp problem is reported in the stamp result (a certificate mismatch as its own error type) and never changes the APK verdict; without a stamp there is no stamp result.",
  ["inputs","configurations"],"all stamp blocks (certificates, per-scheme signatures, algorithms, attributes, lineages), stamp files, schemes and SDK ranges",
  GEN,[SB+"sourcestamp.go",SB+"signingblock.go"],[("stamp",SB+"sourcestamp.go VerifySourceV2Stamp"),("digest choice",SB+"sourcestamp.go getSignatureSchemeDigest"),("algorithms",SB+"sourcestamp.go filterSignaturesToVerify")],["SigningBlockResult.SourceStamp"])
p("C20","Play frosting is reported valid only for this APK and a trusted key",
  "Frosting is reported without error only if the first enabled metadata entry's signature verifies with the trusted key it names over exactly the signed part, and the signed file hash equals the hash of this APK (content, v2 block, central directory, normalised end record). A bad frosting is reported through its own error and never changes the APK verdict.",
  ["inputs"],"all frosting blocks: varint lengths, entry lists, disabled entries, key indices, signatures, and APK changes",
  GEN,[SB+"frosting.go",SB+"signingblock.go"],[("parse",SB+"frosting.go parseFrostingBlock"),("apk binding",SB+"frosting.go verifyApk")],["SigningBlockResult.Frosting"])
p("C21","The verdict is a function of the file and the SDK range only",
  "Verifying the same bytes with the same range gives the same verdict, error, scheme, ordered certificates, lineage, stamp and frosting result every time: whether given as a path, a reader at any position or kind, with or without an already opened archive handle, and whatever other calls were made before, in the process or on that handle. A handle passed in stays open and usable for reading and verifying again.",
  ["histories","inputs"],"all call sequences over shared handles and readers and repeated runs (including map-order nondeterminism)",
  "Tests run each fixture once in a fresh process state; hidden state and iteration-order dependence need repetition and histories.",
  ["apkverifier.go","schemev1.go",SB+"signingblock.go",SB+"sourcestamp.go"],[("zip reuse","apkverifier.go"),("iteration order","schemev1.go verify/verifyMainManifest")],[V,S])
p("C22","Concurrent verifications do not influence each other",
  "Any number of verifications and certificate extractions running concurrently on separate readers, of the same or of different files, each return what they return alone, without data races.",
  ["schedules"],"all interleavings of concurrent calls on different inputs",
  "The tests are sequential.",["apkverifier.go","schemev1.go",SB+"signingblock.go",SB+"verity.go"],[("no shared mutable state","all packages")],[V])
p("C23","I/O failures never turn a rejected or weaker result into an accepted one",
  "If reading or seeking the reader passed to a call fails at any point, once or from then on, the call returns an error, or the same result as without the failure; it never accepts what would be rejected, or reports a different scheme or signer. Short reads alone never change the result.",
  ["fault_sequences","inputs"],"every position of an I/O failure (transient or persistent) and every fragmentation of reads",
  "No test injects I/O faults.",["apkverifier.go",SB+"signingblock.go",SB+"datasource.go","schemev1.go"],[("error propagation",SB+"signingblock.go, datasource.go")],[V])
p("C24","Hostile input is answered with an error, never with a crash or hang",
  "Whatever the bytes of the file, every verification, extraction and PKCS#7 parsing call returns normally, with a result or an error, without panicking and in time and memory bounded by a fixed amount plus an amount proportional to the input (CPU time 15 s plus 20 s per MiB, allocation 256 MiB times one plus the size in MiB).",
  ["inputs"],"all byte sequences, in particular structurally valid files with wrong lengths, counts, key types, algorithm ids or missing fields at any nesting level",
  "Tests use a few well-formed inputs.",["schemev1.go","manifest.go",SB+"utils.go",SB+"signer.go",SB+"frosting.go","fullsailor/pkcs7/ber.go","fullsailor/pkcs7/pkcs7.go"],[("bounds and type checks","all parsers")],[V,"apkverifier.ExtractCerts","pkcs7.Parse"])
p("C25","Certificate extraction agrees with verification",
  "For every APK that verifies over the full SDK range, extracting certificates without verification succeeds and gives the same chains as verification does. Extraction of an APK with no signer information at all returns an error, and extraction never needs the content digests to match.",
  ["inputs"],"all signed APKs, valid and tampered",
  GEN,["apkverifier.go","schemev1.go",SB+"signingblock.go"],[("extraction","apkverifier.go ExtractCertsReader")],["apkverifier.ExtractCerts"])
p("C26","The best certificate choice is order-independent and its description faithful",
  "Picking the best certificate from the extracted chains depends only on the set of chains, not on their order: the highest signature algorithm, then a currently valid one over an expired one, then the most recently issued, then the longest lived. The description's hashes, validity, names, algorithm and serial number are those of the picked certificate; no chains give no certificate.",
  ["inputs"],"all sets and orders of certificate chains",
  GEN,["certinfo.go"],[("ordering","certinfo.go byPreference"),("description","certinfo.go Fill")],["PickBestApkCert","NewCertInfo"])
p("C27","A PKCS#7 signed message verifies iff untouched and complete",
  "A message produced by the signing interface (any number of signers and certificates, attached or detached, any extra attributes) parses back to the same content, certificates and signers and verifies; after changing the content, a signed attribute, the signature, or removing the signer's certificate it does not. A message without signers never verifies, nor does one of another content type or one whose lengths do not fit its contents, and re-encoding in indefinite-length BER changes neither outcome.",
  ["inputs","histories"],"all build sequences of the signing interface, contents and tamperings",
  "The tests sign and verify a few fixed messages and tamper with one.",["fullsailor/pkcs7/pkcs7.go","fullsailor/pkcs7/ber.go"],[("sign","pkcs7.go NewSignedData/AddSigner/Finish"),("verify","pkcs7.go Verify")],["pkcs7.Parse","PKCS7.Verify","NewSignedData"])
p("C28","PKCS#7 encryption round-trips for recipients only",
  "Content of every length encrypted to a set of recipients decrypts to exactly itself with each recipient's certificate and key, for each supported content cipher, and yields an error for a certificate that is not a recipient. Damaged authenticated ciphertext or malformed padding yields an error, never wrong content passed off as valid or a crash. Every encrypted message has a key and an IV or nonce of its own, and encrypting changes nothing in the caller's memory.",
  ["inputs","configurations"],"all contents (in particular lengths around the block size), recipient sets, ciphers and damage",
  "The tests round-trip one short message.",["fullsailor/pkcs7/pkcs7.go"],[("encrypt/decrypt","pkcs7.go Encrypt/Decrypt"),("padding","pkcs7.go pad/unpad")],["pkcs7.Encrypt","PKCS7.Decrypt"])
p("C29","Equivalent manifest and signature-file spellings verify alike",
  "Re-spelling a manifest or signature file before it is signed - CR, LF or CRLF line ends (also mixed, except an LF after a line continued after a lone CR), lines wrapped with continuation lines at any place, attribute names in any case, sections in any order, long or non-ASCII file names - does not change the v1 verdict or the meaning of any attribute. Malformed ones (invalid attribute names, missing separators, NUL bytes, unnamed sections, duplicate sections in the main manifest) are rejected.",
  ["inputs"],"all spellings and malformations of manifest text",
  GEN,["manifest.go","schemev1.go"],[("parser","manifest.go")],[V])
p("C30","The lenient ASN.1/X.509 decoders agree with the strict ones on strict input",
  "On every DER encoding and every certificate that the Go standard library accepts, the lenient decoders in internal/asn1andr and internal/x509andr (and pkcs7.Parse, which uses them) return the same values: the names, serial number, validity, key, algorithms, extensions and constraints of a certificate, and for ASN.1 every integer, bit string, object identifier, string, time and structure. Leniency only adds accepted inputs (lengths, tags and integers not minimally encoded, unprintable characters in a PrintableString, an RSA key without NULL or with a negative modulus, a negative serial number, differing inner and outer algorithms, critical key identifiers) and gives those their obvious meaning; it never changes the meaning of strict input. Excepted is what the lenient one has no notion of: keys beyond the size limits of C24, Ed25519, X25519 and ML-DSA keys, Microsoft's code signing usages (reported as unknown usages), name values of types such as GeneralString, and extensions 33, 36, 54, name constraints other than DNS and alternative names of only URIs, which are reported as unhandled if critical.",
  ["inputs"],"all DER values and certificates",
  "Tests sample fixed encodings.",["internal/asn1andr/asn1.go","internal/x509andr/x509.go"],[("decoders","internal/asn1andr, internal/x509andr")],["certificates reported by apkverifier"])
p("C31","Texts about what was found are faithful and never fail, and lineages compare by content",
  "Rendering any part of a result as text ends without a crash, whatever values the APK carried. The text of a lineage node's capabilities names exactly the flags set, known ones by name, others by value. Known SDK levels, signature algorithms and signing block ids are called by their own names, others by their value, no two alike, and an SDK level supports what Android of that level does (scheme v2 from 24, sandbox rule from 26, v3 from 28, source stamp from 30, v3.1 from 33). A node's dump shows the certificate's fingerprint, validity and names, both algorithms, the signature's fingerprint and the flags. Two lineages are equal exactly if they have the same certificates (by content), algorithms, signatures and flags in the same order.",
  ["inputs"],"all flag words, algorithm, level and block numbers; all lineages and pairs of them",
  "The tests render a few known values and compare no lineages.",[SB+"schemev3lineage.go",SB+"signer.go",SB+"signingblock.go","apilevel/levels.go"],[("capabilities","schemev3lineage.go LineageCertCaps.String"),("equality","schemev3lineage.go Equal"),("names","apilevel String, SignatureAlgorithm.String, BlockId.String")],["LineageCertCaps.String","V3LineageSigningCertificateNodeList.Equal","V3LineageSigningCertificateNode.Dump","apilevel.String"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        f.write(json.dumps(x)+"\n")

# S(id, technique, level, note): checks with other engines; level None = not applicable
S("C01", TECH, "model_checking", "Layout.tla: real-size symbolic files whose sections sit at and around every chunk and page boundary, every tampering of them, accepted iff the digests are the signed ones and then nothing protected differs; each case replayed on the real code with real files. Merkle.tla: the hash tree binds all data up to a bounded length. The verifier model decides whose digests must match. Ideal hash.")
S("C26", TECH, "model_checking", "Pick.tla: chains made of certificates varying over every ordered field the choice looks at (signature algorithm, validity window around the present, issue date, lifetime), all orders of them: the picked one is the maximum of the stated order whatever the order given; each set is made into real certificates and given to the real code in every order, and the description is compared with the certificate picked.")
S("C21", TECH, "model_checking", "History.tla: histories of calls in one process over two files, two ranges, every way of giving a file (path, readers of several kinds at several positions, kept readers, archive handles kept between calls), with uses of the handles and of the results in between: what a call says is a function of the file's bytes and the range. Each history is run on the real code, every answer (all of it: verdict, errors, certificates, lineage, stamp, frosting, extra blocks) against the same call alone in a process of its own. The files are those of the verifier model, random multi-edit and byte-mutated ones.")
S("C22", TECH, "model_checking", "Conc.tla: processes making operations on readers of their own, all schedules with a bounded number of preemptions (2 processes with 2 or 3, 3 with 2): no answer is made of another's reads (and with one shared buffer, the same specification fails). Each schedule is played on the real code with readers that stop at every operation, over scenes of different and equal files and calls; then calls run freely on up to 32 threads; all under the race detector, each answer against the same call alone in a process of its own. Preemptions inside computation (between operations on the reader) are only covered by the free runs.")
S("C23", TECH.replace("explored behaviour","explored failure plan"), "fault_enumeration", "IO.tla: a call's operations in phases, the environment failing any one (or two) of them in any way, once or from then on: the outcome is an error or the outcome without failures (and a reading which takes failures for the end of the file fails). Every plan is run on the real code at every operation the call makes, for random APKs, calls, ranges and kinds of reader. Failures of a file opened by path or of an archive handle passed in are not injected.")
S("C24", TECH.replace("explored behaviour","enumerated damage and shape"), "exploration", "Damage.tla: every part of well made APKs, changed where it is made (so that what is around it is made to fit and the reader gets there) in every way the part's encoding allows, at places spread over it (thorough: pairs of changes); Scale.tla: big inputs of every list, nesting and long text of the formats; Parse.tla: the nested length-prefixed reading, bounded in depth, steps and memory (and one that trusts lengths is not). Every case goes through all the entry points in a separate process with a memory limit: no panic, no end of the process, CPU time and allocation bounded by the size. Two known findings in the dependency avast/apkparser.")
S("C12", TECH, "model_checking", NOTE + " Names.tla: pairs of certificate names one step apart (every character class of the canonical form, every structure of up to three attributes): the canonical text is the same exactly for names meaning the same, and what a block naming its certificates this way is verified with and what chain is reported; replayed with real certificates and blocks.")
S("C27", TECH, "model_checking", "Pkcs7.tla: the signing interface as a state machine (all histories of 2, thorough 3, calls: signers with their own, another's or an unusable key, extra attributes, certificates, detaching, finishing early; the detached content given right or wrong), every change to one (thorough: two) parts of finished messages, in nine encodings (indefinite lengths at all, odd or even levels, long lengths, segmented contents), messages that are broken (of another type, with a length that falls short of its contents, without an end), and messages of other makers with every algorithm pairing: a verified message is a statement of every signer about its very content, untouched ones verify, changes are noticed. Each case is made, changed and verified with the real code: content, certificates, signers, attributes and the verdict.")
S("C28", TECH, "model_checking", "Envelope.tla: plaintext byte by byte, block chaining and authentication: messages of the library (both ciphers, every length around the blocks, recipient sets with shared names, keys that cannot receive), of others (four chained ciphers, every padding byte and every place where it is wrong), and every damage of one part (thorough: samples of pairs): any byte of ciphertext, IV, nonce, tag or parameters, blocks dropped or added, recipients dropped, renamed or holding other keys. Opened with every certificate and key the outcome is error, exactly the content specified, or (unauthenticated garbage) anything but a crash. Each case is made and opened with the real code, also in other encodings; long contents, every single byte of an authenticated message, fresh keys and the caller's memory are checked besides.")
S("C29", TECH, "model_checking", "Text.tla: the byte-level reader of manifest texts (tokens of which every character with a meaning is one of its own). Documents spelled line by line - any line end per line, values continued at any place, names in any case, sections in any order, more or fewer blank lines - mean what the document says (all spellings up to a number of deviations; mutants of the reader fail), and every edit of one token (pairs nearby: sampled) of texts with each line end, and every further section of a name that is there already, is predicted: malformed, rejected or accepted, and which bytes the main section and every section cover. Each text is put into a real APK, as MANIFEST.MF (with signature files digesting the whole or the parts the specification sees) or as signature file, signed for real and verified. The verifier model adds spellings of whole APKs.")
S("C30", TECH, "model_checking", "Der.tla: how the strict and the lenient reader of ASN.1 read every octet string of a family up to a length (integers, bit strings, object identifiers, strings of every type, times, headers with every length form, sequences and structures with optional, default and tagged fields), and Cert.tla: what both make of certificates put together from parts (serial, algorithms, keys, names of every string type, validity, every known extension with lists of items). TLC checks on every state that what the strict reader accepts means the same to the lenient one (mutants of both specifications violate it). Each state is encoded and read with the real decoders, with encoding/asn1 and with crypto/x509: the strict half of the specification has to agree with the standard library, the lenient half with the implementation.")
S("C14", TECH, "model_checking", NOTE + " Manifest.tla: AndroidManifest.xml as a tree of elements, every edit of its attributes, values and elements; the reader tag by tag against what the document means, and the verdicts depending on it, replayed with real binary XML in 16 spellings (namespaces, resource ids, string pool encodings, unknown chunks).")
S("C15", TECH, "model_checking", NOTE + " Manifest.tla: AndroidManifest.xml as a tree of elements, every edit of its attributes, values and elements; the reader tag by tag against what the document means, and the verdicts depending on it, replayed with real binary XML in 16 spellings (namespaces, resource ids, string pool encodings, unknown chunks).")
S("C31", TECH, "model_checking", "Report.tla: the text of a set of flags written bit by bit (reading it back gives the set), two lineages compared node by node and field by field (equal iff the same after any edits), names of levels, algorithms and block ids (two values never get the same text; mutants of all of them fail). Each state is replayed on the real code in child processes, capabilities also in real APKs, dumps of every node besides.")

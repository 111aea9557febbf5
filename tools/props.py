#!/usr/bin/env python3
# Generates /verif/properties.jsonl.  One P(...) call per property.
import json,os
out=[]
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    out.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
            observe_at=list(observe),hook_needed=None)))
S2='sm2/sm2.go';KX='sm2/keyexchange.go';S3='sm3/sm3.go';S4='sm4/sm4.go';CE='sm2/cert/gmx509.go'
CA='cryptobyte/asn1.go';CB='cryptobyte/builder.go';CS='cryptobyte/string.go';UP='util/padding.go'
I=['inputs']
P('C01','SM2 verification accepts exactly the signatures the standard defines',
 "Verification of a signature (r,s) returns true if, and only if, the public key is a point of the curve, 1<=r<=n-1, 1<=s<=n-1, t=(r+s) mod n is not 0, sG+tP is not the point at infinity, and (e+x1) mod n = r, where x1 is the x coordinate of sG+tP and e is the SM3 digest of Z followed by the message. A signature given as DER is accepted only through the same decision on the r and s it encodes, and no input with trailing bytes is accepted.",
 I,'Every public key, user id, message and signature, DER or (r,s).',
 'The tests verify one fixed signature and a few self-made ones; a missing range, t=0, infinity or curve check changes no tested result, and forged inputs are never tried.',
 [S2],[('range, on-curve, t, infinity and final comparison','sm2/sm2.go VerifyByRS'),('DER entry','sm2/sm2.go Verify, UnmarshalSign')],observe=['return value of Verify and VerifyByRS'])
P('C02','SM2 signing: formula, fresh nonce and retry conditions',
 "Every signature returned satisfies r=(e+x1) mod n and s=(1+d)^-1*(k-r*d) mod n, where (x1,y1)=kG, k is drawn from the operating system's cryptographic random source uniformly in [1,n-1] during the attempt that produced this signature, and e is the digest of Z and the message. No signature is returned with r=0, r+k=n or s=0, when the random source failed, or for a private key outside [1,n-2].",
 ['inputs','fault_sequences'],'Every key, user id, message, every outcome of the random source including failure, and every number of retries.',
 'r=0, s=0 and r+k=n have probability 2^-256 and the random source never fails in a test; nonce reuse across retries or a nonce from a weaker source still verifies.',
 [S2],[('nonce draw and retry loops','sm2/sm2.go SignToRS, nextK'),('private key range','sm2/sm2.go isValidScalar')],observe=['(r,s,err) of SignToRS; bytes of Sign'])
P('C03','Signed digest commits to user id, curve, public key and message',
 "The digest that is signed and the digest that is verified are both SM3(Z || message) with Z = SM3(ENTL || ID || a || b || xG || yG || xA || yA), where ENTL is the exact bit length of the id as two big-endian bytes and every field element is exactly 32 bytes, leading zeros included. A nil user id stands for the 16 byte default id \"1234567812345678\" in signing and in verification; an id whose bit length does not fit ENTL is refused by both.",
 I,'Every user id (nil, empty, up to and beyond 8191 bytes), every key (including coordinates with leading zero bytes), every message.',
 'Sign and verify share the code, so round trips agree with themselves; the fixed vector has one id and full-size coordinates.',
 [S2],[('Z and e computation','sm2/sm2.go getZ, calculateE, bigIntTo32Bytes, checkUserId')],observe=['acceptance by an independent verifier'])
P('C04','SM2 decryption releases plaintext only after authentication',
 "Decryption returns plaintext only if C1 is a point of the curve and C3 equals SM3(x2 || M || y2) for exactly the plaintext M it returns, with (x2,y2)=d*C1 encoded as 32 byte strings; in every other case it returns no bytes and an error. M is C2 xored with the key stream derived from x2 and y2.",
 I,'Every private key, every ciphertext byte string of any length and every layout selector.',
 'Tests only decrypt what they encrypted; tampered, truncated and off-curve ciphertexts are never given.',
 [S2],[('C1 validation, C3 comparison','sm2/sm2.go Decrypt')],observe=['return values of Decrypt'])
P('C05','SM2 ciphertext layouts agree across the four operations',
 "In the raw form a ciphertext is 04||x1||y1 (65 bytes) followed by C2||C3 for the old layout and C3||C2 for the new one, with C3 always 32 bytes; encryption, decryption and both DER conversions all use that layout, and the DER form is SEQUENCE{x1,y1,C2,C3} or SEQUENCE{x1,y1,C3,C2} respectively. Converting a raw ciphertext to DER and back gives the same bytes, and an unknown layout selector gives an error from all four.",
 I,'Every plaintext length, every layout selector value, every coordinate value including those with leading zero bytes.',
 'Swapping the layout on both sides still round-trips, and only a 10 byte plaintext is tested.',
 [S2],[('layout selection','sm2/sm2.go Encrypt, Decrypt, MarshalCipher, UnmarshalCipher')],observe=['bytes returned'])
P('C06','SM2 encryption: fresh nonce, complete key stream, zero-stream retry',
 "Every ciphertext returned has C1=kG, C2 = M xor KDF(x2||y2) and C3=SM3(x2||M||y2) with (x2,y2)=kP, for k drawn from the operating system's cryptographic random source uniformly in [1,n-1] during the attempt that produced it. Byte i of the key stream is byte i mod 32 of SM3(x2||y2||ct) with ct = 1 + floor(i/32) as four big-endian bytes, for every i below the plaintext length; a non-empty plaintext is never returned unmasked, and a failing random source gives an error.",
 ['inputs','fault_sequences'],'Every public key on the curve, every plaintext length and content, every random source outcome.',
 'The only tested plaintext is 10 bytes, inside the first key-stream block; errors that both sides share still round-trip.',
 [S2],[('nonce and retry loop','sm2/sm2.go Encrypt, nextK'),('KDF','sm2/sm2.go kdf')],observe=['bytes returned by Encrypt'])
P('C07','Untrusted input never panics the SM2 functions',
 "For well-formed keys, no byte string given as a ciphertext, DER signature, DER ciphertext, raw key, user id or message, and no integer pair given as a signature, makes an SM2 function panic or index out of range; malformed input is reported through the returned error or false.",
 I,'Every byte string of every length, nil included, given to every exported decoding, verification, decryption and conversion function of the SM2 package.',
 'Tests feed only well-formed input; the failing inputs are short, oversized or off-curve.',
 [S2,KX],[('length and curve checks','sm2/sm2.go Decrypt, MarshalCipher, UnmarshalCipher, RawBytesTo*, Verify*')],observe=['absence of a panic'])
P('C08','Every DER value is parsed to its end',
 "Whenever a byte string is decoded as a DER value (signature, ciphertext, certificate, certificate request, their embedded names, keys, parameters and certificate extensions), bytes left over after the value make the operation fail; leftover bytes are never ignored. The exceptions are CSR attributes that do not parse as attributes, which are skipped, the value list of a CSR extension request, and the minimum and maximum fields of a name constraint.",
 I,'Every decoding call of the SM2 and certificate packages, for every input.',
 'No test gives a value with trailing bytes.',
 [S2,CE],[('rest checks after Unmarshal','sm2/sm2.go, sm2/cert/gmx509.go')],observe=['error returned'])
P('C09','Key exchange: role-symmetric transcript and confirmation before key release',
 "Both roles hash the same transcript in the same order (initiator's identity digest, static and ephemeral data first, responder's second), derive the key as KDF(xU||yU||ZA||ZB) of exactly ceil(keyBits/8) bytes with a 32 byte block counter starting at 1, and compute the confirmation tags with prefixes 02 (responder to initiator) and 03 (initiator to responder). The initiator obtains a key only if the confirmation tag it was given equals the tag it computed, and neither role obtains one when a peer point is off the curve, the shared point is at infinity or keyBits is not positive.",
 I,'Every key pair, peer key, identity, key length and confirmation tag, in both roles.',
 'One exchange of 128 bits (one KDF block) with fixed parties is tested; wrong tags, bad points and long keys are not.',
 [KX],[('role branches, tag comparison','sm2/keyexchange.go CalculateKeyWithConfirmation'),('KDF','sm2/keyexchange.go kdfForExch')],observe=['ExchangeResult, error'])
P('C10','Raw key import accepts exactly valid keys',
 "Importing a raw private key succeeds exactly for 32 byte strings whose big-endian value lies in [1,n-2]; importing a raw public key succeeds exactly for 64 byte strings x||y that are a point of the curve. On success the key holds exactly the imported value and the SM2 curve; on failure no key is returned. The public key computed from a private key d is d*G, and a generated pair satisfies this with d drawn from the reader given.",
 I,'Every byte string of every length.',
 'Tests import only generated keys.',
 [S2],[('import checks','sm2/sm2.go RawBytesToPrivateKey, RawBytesToPublicKey')],observe=['returned key and error'])
P('C11','Raw key export is fixed length and left padded',
 "Exporting a public key yields exactly x and y as 32 byte big-endian strings (64 bytes, or 65 with the leading 04), exporting a private key exactly 32 bytes, for every coordinate or scalar value including those with leading zero bytes, so export followed by import gives the same key.",
 I,'Every key value below 2^256.',
 'A value with a leading zero byte has probability 1/256 per generated key, with two 1/65536.',
 [S2],[('fixed width encoding','sm2/sm2.go GetRawBytes, GetUnCompressBytes, bigIntTo32Bytes')],observe=['bytes returned'])
P('C12','Reading an SM3 digest does not disturb the running hash',
 "Asking a running hash for its digest leaves it in the state it was in: further writes and sums behave as if the digest had not been asked for, and the digest is appended to the given slice without changing its existing content. Asking twice gives the same digest.",
 ['inputs','histories'],'Every interleaving of writes, sums, resets and size queries.',
 'The original code reset the state and tests use each hash once.',
 [S3],[('copy before finalisation','sm3/sm3.go Sum')],observe=['digest bytes'])
P('C13','SM3 absorbs every byte of every write once, in order',
 "The digest depends only on the concatenation of the bytes written since creation or reset, not on how they were split into writes: each byte enters the compression input exactly once, at the position given by the number of bytes written before it, as part of big-endian words, whatever the buffered residue. A write of n bytes, n=0 included, reports n and no error, and the reported block size (64) and digest size (32) are those of the algorithm.",
 ['inputs','histories'],'Every sequence of writes of every length, from every buffer state.',
 'The tests hash 3 and 64 bytes in one write each.',
 [S3],[('word and block buffering','sm3/sm3.go Write, processWord')],state=[('buffer offsets','bytes in the partial word, words in the partial block','sm3/sm3.go sm3Digest')],observe=['digest bytes, n, err'])
P('C14','SM3 padding is correct for every message length',
 "Finalisation appends 80, then the least number of zero bytes so that the length is 56 mod 64, then the 64 bit big-endian bit length of the whole message, and compresses every full block exactly once; a reset hash starts again from the standard initial value with nothing buffered.",
 ['inputs','histories'],'Every message length modulo 64 and every state at finalisation.',
 'Only lengths 3 and 64 are tested; the boundary cases (residue 55 to 63) are not.',
 [S3],[('padding','sm3/sm3.go finish, processLength'),('initial state','sm3/sm3.go Reset')],observe=['digest bytes'])
P('C15','SM3 compression function is the standard one',
 "Each compression expands the 16 input words into 68 and 64 words with P1, runs 64 rounds with the standard constants, Boolean functions (xor below round 16, majority and choice from round 16), rotations and P0, and xors the result into the chaining value, for every block and chaining value.",
 I,'Every 512 bit block and 256 bit chaining value.',
 'Two message digests exercise three blocks; a change confined to particular word values passes.',
 [S3],[('rounds','sm3/sm3.go processBlock, ff0..gg1, p0, p1, gT')],observe=['digest bytes'])
P('C16','SM4 block transform and key schedule are the standard ones',
 "For every key and block, encryption is the 32 round SM4 transform with the standard S-box, FK, CK and the linear maps L and L', the key schedule derives rk[i] in order, and decryption is the same transform with the round keys in reverse order, so that decryption inverts encryption under the same key.",
 I,'Every 128 bit key and block; all 256 S-box entries.',
 'A few vectors look up only part of the S-box and never all byte values.',
 [S4],[('tables and rounds','sm4/sm4.go sBox, cK, fK, expandKey, processBlock')],observe=['block output'])
P('C17','SM4 block operations read the whole input before writing output',
 "A block operation reads exactly the first 16 bytes of its input before it writes exactly the first 16 bytes of its output, so encrypting or decrypting in place, or with overlapping buffers, is correct; input or output shorter than a block is refused by a panic before anything is written. The order of operations and the memory touched outside of S-box look-ups do not depend on key or data values.",
 I,'Every key, block, buffer length and aliasing of input and output.',
 'Tests use distinct full-size buffers.',
 [S4],[('load, rounds, store','sm4/sm4.go Encrypt, Decrypt, processBlock')],observe=['buffers after the call'])
P('C18','SM4 ECB and CBC process every block once and refuse bad lengths',
 "The ECB and CBC helpers return an error and no data when the input is not a multiple of 16 bytes, the key is not 16 bytes or (CBC) the iv is not 16 bytes; otherwise they return a fresh buffer of the input's length in which ECB block i is the block transform of input block i and CBC is the chaining with the given iv, in the right direction. The input, key and iv are left unchanged.",
 I,'Every key, iv and data length and content, empty included.',
 'Vectors are two CBC cases of fixed length and ECB round trips; wrong lengths are not tried.',
 [S4],[('mode helpers','sm4/sm4.go ECBEncrypt, ECBDecrypt, CBCEncrypt, CBCDecrypt, NewCipher')],observe=['returned data and error'])
P('C19','Caller-supplied data is never modified',
 "No exported function writes to memory the caller passed in as input: not to message, key, iv, id, signature or ciphertext bytes, nor to their spare capacity, nor to big integers of keys and signatures, nor to certificate and request templates. The exceptions are parameters whose documented purpose is output: cipher destination, digest append target, parser cursors and out pointers, the receiver of a hash or builder, the buffer a builder was created on, and the certificate template that is filled from a request.",
 ['inputs','histories'],'Every exported function, every input, spare capacity included.',
 'Tests do not inspect inputs after the call, and slices in tests have no spare capacity.',
 [S2,KX,S3,S4,CE,UP],[('copies of input and fresh results','all packages')],observe=['content of argument memory after the call'])
P('C20','No shared mutable state: independent objects are safe concurrently',
 "After package initialisation no function writes to package-level state, so operations on distinct objects never interfere, and a block cipher object is never written after construction, so it can be used from several goroutines. No function hands out memory of package-level tables that a caller could write through, other than the curve parameters.",
 ['schedules','histories'],'Every set of concurrent calls on distinct hash objects, or on shared keys, certificates and block ciphers.',
 'Tests are sequential.',
 [S2,S3,S4,CE,CA],[('package variables are tables','all packages')],observe=['results under concurrency'])
P('C21','Errors are never swallowed and failures return no result',
 "When a called operation inside the library reports an error or failure status, the operation that called it reports failure too and returns no partial result; a success return implies that every error obtained on the way was nil. The exceptions are CSR attributes that do not parse, which are skipped.",
 ['inputs','fault_sequences'],'Every function returning an error and every failing callee on every path.',
 'Error paths (random source failure, marshalling failure, malformed nested values) are not provoked by tests.',
 [S2,KX,S4,CE],[('error checks','every err != nil branch')],observe=['error results'])
P('C22','Certificates and requests with other algorithms are refused',
 "Parsing a certificate or a certificate request succeeds only if its signature algorithm is SM2-with-SM3, its public key algorithm is the EC one, its curve parameter is exactly the SM2 curve, and its public key bits are an uncompressed point on that curve; the returned public key is that point.",
 I,'Every certificate and request.',
 'Only well-formed SM2 certificates are parsed in tests.',
 [CE],[('OID gates','sm2/cert/gmx509.go parseCertificate, parseCertificateRequest, parsePublicKey')],observe=['error, PublicKey'])
P('C23','What is signed is what is embedded and what is parsed',
 "In an issued certificate and in a created request, the signature is computed with the given key and user id over exactly the to-be-signed bytes embedded in the result, and the algorithm identifier says SM2-with-SM3. Parsed certificates and requests expose, as signed bytes, subject, issuer, key info, serial number, validity and signature, exactly the corresponding fields of the input.",
 I,'Every template, parent, request, key and user id.',
 'Tests look at a handful of fields of one certificate.',
 [CE],[('tbs bytes','sm2/cert/gmx509.go CreateCertificateRequest, CreateCertificateInfo, IssueCertificateBySoftCAKey, CreateCertificate'),('field mapping','parseCertificate, parseCertificateRequest')],observe=['DER bytes, parsed fields'])
P('C24','CSR verification binds the request to its own key',
 "A certificate request verifies exactly when its signature is a valid SM2 signature under the request's own SM2 public key and the given user id over its exact to-be-signed bytes; a request that does not parse is reported with an error and false, and one with another kind of key with false.",
 I,'Every request and user id.',
 'Only a valid self-made request is verified in tests.',
 [CE],[('verification','sm2/cert/gmx509.go VerifyDERCSRSign, VerifyCSRSign')],observe=['bool, error'])
P('C25','Every extension written is the one read back, and criticality is honoured',
 "For each certificate extension the library writes (key usage, extended key usage, basic constraints, subject and authority key id, authority information access, alternative names, policies, name constraints, distribution points), the parser recognises the same identifier and fills the same field from it; a critical extension the parser does not handle is always listed as unhandled. An extension supplied explicitly by the caller suppresses the generated one with the same identifier, generated extensions are encoded exactly when their template fields are set, and all extensions of the template's extra list are kept.",
 I,'Every template with every combination of fields, every certificate with every list of extensions.',
 'One template with few fields is tested.',
 [CE],[('writer and reader','sm2/cert/gmx509.go buildExtensions, parseCertificate')],observe=['extensions of the certificate, parsed fields'])
P('C26','Extended key usage mapping is one to one',
 "The table between extended key usages and object identifiers maps each of the 14 standard usages to its registered identifier, both directions use it consistently, an identifier outside it is preserved as unknown when parsing, and a usage outside it is refused when writing.",
 I,'Every usage value and identifier.',
 'No test lists all usages.',
 [CE],[('mapping','sm2/cert/gmx509.go extKeyUsageOIDs')],observe=['ExtKeyUsage, UnknownExtKeyUsage'])
P('C27','Alternative names and name constraints use the right tags and reject bad values',
 "E-mail, DNS, URI and IP names are written with and read from general-name tags 1, 2, 6 and 7 respectively, in alternative names and in name constraints, permitted and excluded subtrees are kept apart (context tags 0 and 1), and when they are read an IP name of a length other than 4 or 16, an IP constraint of a length other than 8 or 32, or a mask that is not ones followed by zeros is refused. An IP constraint is written as the masked address followed by the mask, and a constraint with characters outside ASCII is not written.",
 I,'Every list of names and constraints, every encoded value.',
 'Tests use few names and no constraints.',
 [CE],[('tags','sm2/cert/gmx509.go marshalSANs, parseSANExtension, parseNameConstraintsExtension, isValidIPMask')],observe=['names, error'])
P('C28','The byte-string reader stays within its input',
 "Reading from a byte string never panics and never reads outside it for any content and any requested length: a read succeeds only when enough bytes remain, yields exactly the next bytes of the input in order, and advances by exactly what was consumed. Fixed-size integers are big-endian and length-prefixed reads yield exactly the prefixed number of bytes.",
 I,'Every byte string and every sequence of reads with every length argument.',
 'The package has no tests.',
 [CS,CA],[('bounds check and advance','cryptobyte/string.go read, readUnsigned, readLengthPrefixed')],observe=['out values, remaining string'])
P('C29','DER reading is strict',
 "An element is accepted only with a single-byte tag, a definite length in minimal form that fits the input, and the tag that was asked for; an integer only in minimal two's complement form and within the range of the target; a Boolean only as 00 or FF; a bit string only with at most 7 zero padding bits; an identifier arc only in minimal form; anything else yields false.",
 I,'Every byte string given to every DER reading function.',
 'The package has no tests.',
 [CA],[('header and value checks','cryptobyte/asn1.go readASN1, checkASN1Integer, readBase128Int, ReadASN1*')],observe=['bool results, out values'])
P('C30','The byte-string builder reports every failure and fits its buffer',
 "Once a builder has met an error, no later operation clears it and no bytes are returned; content longer than its length prefix can express, and content exceeding a fixed buffer, are errors and never produce truncated or corrupt output; a fixed builder never reallocates. A finished length-prefixed element carries exactly the number of content bytes, in minimal DER form for ASN.1 elements.",
 ['inputs','histories'],'Every sequence of nested builder operations, every content length, both kinds of builder.',
 'The package has no tests.',
 [CB,CA],[('sticky error','cryptobyte/builder.go add, flushChild, addLengthPrefixed'),('length patching','flushChild')],observe=['Bytes() result'])
P('C31','DER writer and reader agree on tag and content form',
 "Each typed value the builder writes (integers, enumerations, Booleans, octet strings, bit strings, identifiers, times, explicit tags) carries the universal tag and content form that the reader of the same type requires, so that what is written is read back as the same value (for identifiers, when every arc is below 2^31, the limit of the reader).",
 I,'Every value of every supported type (identifier arcs below 2^31).',
 'The package has no tests.',
 [CA],[('tag of each typed operation','cryptobyte/asn1.go, cryptobyte/asn1/asn1.go')],observe=['value read back'])
P('C32','Padding and unpadding are inverse and total',
 "PKCS#5 padding appends n bytes of value n with 1<=n<=blocksize so that the length becomes a multiple of the block size, zero padding appends the same number of zero bytes, and both return a slice that starts with the unchanged input. Removing PKCS#5 padding returns the input without its last n bytes for a last byte n with 1<=n<=length, and nil for everything else, without panicking.",
 I,'Every input and every block size from 1 to 255.',
 'Padding is only exercised through one cipher round trip.',
 [UP],[('padding','util/padding.go')],observe=['returned slice'])
P('C33','The library performs no I/O and never prints secrets',
 "No function other than the constant-table printing helper writes to standard output, a log, a file, the network or the environment, starts a process or goroutine, or reads the clock, and no error value is built from key material, nonces or plaintext.",
 ['inputs','programs'],'Every exported function on every path.',
 'A test cannot show the absence of an effect on every path.',
 [S2,KX,S3,S4,CE,CA,CB,CS],[('imports and calls','all packages')],observe=['process effects, error text'])
P('C34','All secret randomness comes from the system source',
 "Every nonce used in signing and encryption is drawn from the operating system's cryptographic random source by uniform sampling below the group order, key generation uses exactly the reader it is given, and no other source of randomness, seed, clock or counter is used anywhere.",
 ['inputs','programs'],'Every call on every path.',
 'Statistical tests cannot tell a weak source from a strong one.',
 [S2],[('nonce source','sm2/sm2.go nextK and its callers, GenerateKey')],observe=['random source used'])
P('C35','Two parties of a key exchange obtain the same key',
 "If both parties run the exchange with matching inputs they obtain the same shared point and hence the same key and tags, for every choice of static and ephemeral keys and identities.",
 I,'Every pair of key pairs and identities.',
 'Only one fixed exchange is tested.',
 [KX],[('shared point','sm2/keyexchange.go calculateU')],observe=['ExchangeResult of both sides'])
P('C36','Secret-dependent timing',
 "The running time of signing, decryption and key exchange does not depend on private keys or nonces.",
 I,'Every key and nonce.',
 'Functional tests do not observe time.',
 [S2,KX],[('big integer arithmetic','sm2/sm2.go')],observe=['timing'])
P('C37','The curve arithmetic used is that of the SM2 curve',
 "Scalar multiplication and addition give the group law of the curve with the published parameters for every operand.",
 I,'Every scalar and point.',
 'A few fixed operands are tested.',
 [S2],[('delegation to the generic short-Weierstrass code with a=p-3','sm2/sm2.go P256V1Curve')],observe=['coordinates'])
P('C38','The curve is initialised with exactly the published parameters',
 "The curve every operation uses has exactly the published SM2 prime, coefficients a and b, base point, order, cofactor 1 and 256 bit size, and no later operation changes them; a equals p-3, which the generic arithmetic relies on.",
 ['inputs','histories'],'Every operation of every program using the library.',
 'Test vectors would notice a wrong constant but not a parameter that is unused by the vectors or altered later.',
 [S2],[('initialisation','sm2/sm2.go initSm2P256V1')],observe=['curve parameters'])
P('C39','Every operation ends',
 "No input makes a function of the library run forever: every loop has a bound that the input fixes and every round moves towards, or every round of it draws fresh randomness (rejection sampling of nonces and keys, a new attempt at signing or encrypting); no way round a loop leaves everything its exit depends on unchanged.",
 ['inputs','fault_sequences'],'Every loop of every function, for every input and every outcome of the random source.',
 'A missing advance or a retry with the same nonce shows only on the rare input or random value that takes that way round: a zero key stream, a zero nonce, an odd byte in a name.',
 [S2,KX,S3,S4,CE,CA,CB,CS],[('retry loops','sm2/sm2.go Encrypt, SignToRS, nextK'),('key stream loops','sm2/sm2.go kdf; sm2/keyexchange.go kdfForExch'),('parsing loops','sm2/cert/gmx509.go forEachSAN, parseNameConstraintsExtension, parseRFC2821Mailbox; cryptobyte/asn1.go')],observe=['the call returns'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for o in out: f.write(json.dumps(o,ensure_ascii=False)+'\n')
print(len(out))

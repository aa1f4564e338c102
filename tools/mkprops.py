#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **extra):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(extra)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Signed JWTs verify as signed and under no altered bytes, key or algorithm",
  "For every claims object, header set and supported algorithm (EdDSA, ES256, ES384, ES521, ES256K, RS256, PS256), a JWT signed with a key is accepted by the checker holding that key's public half and decodes to the claims that were signed, and claims whose numbers are large integers come back with their exact value. Changing any part of the serialized token, removing the signature, relabelling the algorithm (including to none) or checking it under another key, key id or issuer makes verification fail. A token whose headers announce another type or a nested token is refused. Every non-empty detached payload verifies only together with the payload it was signed over.",
  ["inputs"], "all JSON claims, header combinations, supported algorithms, keys, and single-point alterations of the resulting token",
  "The tests sign a few fixed claim sets per algorithm and alter at most one byte of one token; acceptance or rejection over all claims and all altered positions is not something a list of examples reaches.",
  ["jwt/jwt.go", "jwt/jose_wrappers.go", "proof/checker/checker.go", "proof/creator/creator.go", "proof/jwtproofs", "crypto-ext/verifiers"],
  [("parse, signature check and claims decoding", "jwt/jwt.go ParseAndCheckProof"), ("header and algorithm selection, key lookup", "proof/checker/checker.go CheckJWTProof"), ("signing", "proof/creator/creator.go SignJWT")])

p("C02", "Signed CWTs verify as signed and under no altered bytes, key or algorithm",
  "A CBOR web token signed with a supported COSE algorithm is accepted by a checker that holds the matching public key and carries the payload it was signed over. Altering the payload, the protected headers or the signature, or checking it under a different key, algorithm or issuer, makes verification fail.",
  ["inputs"], "all CBOR-encodable claim maps, COSE algorithms, keys and alterations of the token's bytes",
  "Existing tests check one token per algorithm and one wrong key; they do not explore altered encodings or mixed algorithm and key pairs.",
  ["cwt/cwt.go", "cwt/wrappers.go", "verifiable/cwt", "proof/checker/checker.go", "verifiable/cose.go", "verifiable/credential_cwt.go"],
  [("parse and check", "cwt/cwt.go ParseAndCheckProof, CheckProof"), ("to-be-signed bytes", "verifiable/cwt/cwt.go GetProofValue"), ("key selection", "proof/checker/checker.go CheckCWTProof")])

p("C03", "Linked-data proofs verify on the signed document and on nothing else",
  "A credential, presentation or DID document carrying a linked-data proof made with a supported suite and signature representation verifies with the signer's key, also after it was serialized and parsed again and after members were reordered. Altering any signed statement of the document, any authenticated proof option (purpose, creation time, verification method, challenge, domain) or the proof value makes verification fail. When several proofs are present every one of them must verify.",
  ["inputs", "histories"], "all valid documents of the supported shapes, suites (Ed25519Signature2018/2020, JsonWebSignature2020, EcdsaSecp256k1Signature2019, BbsBlsSignature2020), proof options, numbers of proofs, and alterations",
  "Tests sign a few literal documents and check one altered document at most; which alterations are covered by the signature is a property of every member of every document.",
  ["verifiable/embedded_proof.go", "verifiable/linked_data_proof.go", "verifiable/lddocument", "verifiable/did_ldp.go", "proof/ldproofs"],
  [("proof hash and canonicalisation", "verifiable/lddocument/signer.go, verifier.go (through github.com/trustbloc/did-go proof package)"), ("all proofs checked", "verifiable/lddocument/verifier.go VerifyObject"), ("parse-time check", "verifiable/embedded_proof.go checkEmbeddedProof")])

p("C04", "Data Integrity proofs verify on the signed document and expected options only",
  "A document to which one or several Data Integrity proofs were added with the supported suites verifies when checked with the proofs' own purpose, domain and challenge; altering a signed member, an option covered by the proof or any proof value makes verification fail, and every proof of a proof list is checked. A proof whose purpose, domain or challenge differs from what the verifier expects, whose key is not authorised for the purpose, or that has expired, is rejected. A document without any proof is never accepted.",
  ["inputs", "histories"], "all JSON-LD documents of supported shapes, suites ecdsa-rdfc-2019 and eddsa-rdfc-2022, one to three proofs, expected options, alterations and clock offsets",
  "Tests use one document and one proof per suite, so neither the coverage of each option by the signature nor proof lists are settled.",
  ["dataintegrity", "verifiable/data_integrity_proof.go", "verifiable/did_data_integrity.go"],
  [("proof list loop and option checks", "dataintegrity/verifier.go VerifyProof"), ("proof creation", "dataintegrity/signer.go AddProof"), ("suite hashing", "dataintegrity/suite/ecdsa2019, eddsa2022")])

p("C05", "Verification keys come only from the issuer's DID document and fit the algorithm",
  "A proof of a credential or token is accepted only with a key that the DID document of the issuer it names (of the key id's own DID where no issuer is expected) lists as a verification method under that very key id, other than one embedded for key agreement only. A key whose type or curve does not fit the proof's algorithm or suite is refused even when the raw signature would match.",
  ["inputs", "configurations"], "all DID documents with keys distributed over the verification relationships, key ids, key types and proof algorithms",
  "Tests resolve a handful of fixed DID documents; the pairing of relationship, key id, owner and key type is a product space.",
  ["vermethod/vdrkeyresolver.go", "vermethod/method.go", "proof/checker/checker.go", "proof/descriptor.go", "proof/jwtproofs", "proof/ldproofs"],
  [("key lookup", "vermethod/vdrkeyresolver.go ResolveVerificationMethod"), ("key and algorithm matching", "proof/checker/checker.go convertToPublicKey, CheckJWTProof, CheckLDProof, CheckCWTProof"), ("issuer discovery", "proof/checker/checker.go FindIssuer")])

p("C06", "Signature verifiers accept exactly the valid signatures",
  "For every key, message and byte string offered as a signature, the Ed25519, ECDSA (P-256, P-384, P-521, secp256k1), RSA PKCS#1 v1.5, RSA-PSS and BBS+ verifiers accept when and only when the reference algorithm does. This holds whether the key is given as raw bytes or as a JWK, and malformed keys or signatures are refused with an error and no crash.",
  ["inputs"], "all messages, keys and candidate signatures including truncated, extended, re-encoded, swapped and random ones",
  "Tests try one valid and one broken signature per algorithm.",
  ["crypto-ext/verifiers", "crypto-ext/pubkey/pubkey.go"],
  [("verify", "crypto-ext/verifiers/{ecdsa,ed25519,rsa,bbs} Verify"), ("key kinds", "crypto-ext/pubkey/pubkey.go")])

p("C07", "SD-JWT reveals exactly the claims the holder selected, unchanged",
  "For every claims object, format version and issuing options, the verifier of a presentation in which the holder disclosed any subset of the disclosures obtains exactly the always-visible claims plus the selected ones at their original places with their original values, and nothing else. Disclosing everything gives back the issued claims. The holder sees every disclosable claim exactly once.",
  ["inputs", "configurations", "histories"], "all claims objects (nested objects, arrays, every JSON type), versions 2 and 5, flat, structured and recursive issuing, decoys, always-visible selections, and every subset of disclosures",
  "The subsets of disclosures and shapes of claims are exponential; tests use a few fixed claim sets with one or two selections.",
  ["sdjwt/issuer", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go", "sdjwt/common/common.go"],
  [("disclosure creation", "sdjwt/issuer/issuer.go, v2.go, v5.go CreateDisclosuresAndDigests"), ("selection", "sdjwt/holder/holder.go CreatePresentation"), ("reconstruction", "sdjwt/common/common.go GetDisclosedClaims")])

p("C08", "An issued SD-JWT hides undisclosed claims behind fresh salted digests",
  "The signed part of an SD-JWT contains, for each selectively disclosable claim, only a digest under the declared hash algorithm of that claim's disclosure and neither the name-value pair nor the value of a hidden claim. Every disclosure carries its own salt, issuing the same claims twice shares no salt or digest, decoy digests match no disclosure and are never handed out as disclosures, and each digest list is in an order that does not depend on the claims' order.",
  ["inputs", "configurations", "histories"], "all claims objects and issuing options (hash algorithm, version, decoys, structured, recursive, always-visible and non-selective lists)",
  "Confidentiality is a statement about every claim of every payload; tests look for particular digests of particular claims.",
  ["sdjwt/issuer", "sdjwt/common/common.go"],
  [("digest creation and decoys", "sdjwt/issuer/issuer.go createDigests, createDecoyDisclosures"), ("salt", "sdjwt/issuer/issuer.go generateSalt"), ("hash", "sdjwt/common/common.go GetHash")])

p("C09", "SD-JWT verification accepts only disclosures the issuer signed for",
  "Holder and verifier refuse a combined SD-JWT when a disclosure was altered or forged or matches no digest of the signed token or its accepted disclosures, when a digest occurs twice, when a disclosed claim name would shadow an existing or reserved one, or when the issuer's signature, signing algorithm, type header or time claims are not acceptable. Any combination of the issuer's own disclosures whose parents are present is accepted.",
  ["inputs"], "all issued SD-JWTs and all alterations of their disclosures, digests and headers",
  "Tests contain one example of each kind of refusal on a flat token; nested and recursive structures and combinations are not covered.",
  ["sdjwt/common/verification.go", "sdjwt/common/common.go", "sdjwt/verifier/verifier.go", "sdjwt/holder/holder.go"],
  [("disclosure digests are in the token", "sdjwt/common/verification.go VerifyDisclosuresInSDJWT"), ("algorithm, typ and time checks", "sdjwt/common/verification.go VerifySigningAlg, VerifyTyp, VerifyJWT"), ("claim reconstruction", "sdjwt/common/common.go")])

p("C10", "SD-JWT key binding proves possession of the bound key for this verifier",
  "When holder verification is required, or a binding token is present, a presentation is accepted only if the binding token is signed with the key named in the issuer-signed confirmation claim by an allowed algorithm and carries the expected nonce and audience. A missing binding, one made with another key, replayed for another nonce or audience or expired is refused in both format versions.",
  ["inputs", "configurations"], "all holder keys and algorithms, nonces, audiences, time claims, versions and verifier options",
  "Each test fixes one nonce and audience; the decision table over all options and versions is not covered.",
  ["sdjwt/verifier/keybidning.go", "sdjwt/verifier/holderbidning.go", "sdjwt/verifier/verifier.go", "sdjwt/holder/holder.go"],
  [("key binding check", "sdjwt/verifier/verifier.go runHolderVerification, verifyHolderVerificationJWT and keybidning.go, holderbidning.go"), ("binding creation", "sdjwt/holder/holder.go CreateHolderVerification")])

p("C11", "Credential JSON round-trips without loss or change",
  "Parsing a valid credential document of either data-model version and serializing it gives a JSON document equal in meaning to the input (contexts, types, issuer, subjects, dates, status, schema, evidence, terms, refresh services, related resources, custom members and proofs), and a second round trip changes nothing more. A credential built from contents serializes to a document that parses back to the same contents.",
  ["inputs"], "all valid credential documents and contents: single or multiple values, string or object forms, arbitrary custom members, v1 and v2 fields",
  "Tests compare a handful of example credentials; loss shows in particular combinations of optional members and forms.",
  ["verifiable/credential.go", "verifiable/credential_parser.go", "util/json/json.go"],
  [("parse to contents", "verifiable/credential.go parseCredentialContents"), ("serialize", "verifiable/credential.go serializeCredentialContents, MarshalJSON")])

p("C12", "A credential survives every securing format with its content intact",
  "Signing a credential as JWT (full or minimized), unsecured JWT, CWT or embedding a secured form in an enveloped credential, and parsing the result with the matching key, yields the credential that was signed: same contents, subject, dates at the format's precision, status, types and custom members, and tokens that serialize again to the very bytes that were parsed. The registered claims of the token agree with the credential they were made from.",
  ["inputs", "configurations"], "all valid credentials, securing formats and key types",
  "Tests compare a few fields of one example credential per format.",
  ["verifiable/credential_jwt.go", "verifiable/credential_jws.go", "verifiable/credential_cwt.go", "verifiable/credential_jwt_unsecured.go", "verifiable/credential_parser.go", "verifiable/common.go"],
  [("claims mapping", "verifiable/credential_jwt.go newJWTCredClaims, refineFromJWTClaims"), ("CWT mapping", "verifiable/credential_cwt.go"), ("enveloped forms and data URLs", "verifiable/credential_parser.go EnvelopedCredentialParser, verifiable/common.go ParseDataURL")])

p("C13", "A presentation survives every format with its credentials intact",
  "Serializing a presentation as JSON, signed or unsecured JWT (full or minimized) or CWT and parsing it back yields the same holder, id, types, contexts, custom members and the same credentials in the same order and formats, each still verifying. Cloning a presentation and changing the copy leaves the original unchanged.",
  ["inputs", "configurations", "histories"], "all presentations with zero to several credentials of mixed formats, v1 and v2 contexts",
  "Tests use one credential per presentation and check selected fields.",
  ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go"],
  [("raw form", "verifiable/presentation.go raw, MarshalJSON, MarshalCBOR"), ("parse", "verifiable/presentation.go ParsePresentation, presentation_parser.go"), ("claims", "verifiable/presentation_jwt.go newJWTPresClaims, refineFromJWTClaims")])

p("C14", "With proof checking on, nothing unproven is accepted",
  "Unless the caller disabled the proof check, parsing a credential or presentation succeeds only if a proof is present and valid for its issuer or holder, in every format (JSON-LD, Data Integrity, JWT, CWT, SD-JWT, enveloped) and also for credentials nested in a presentation unless those carry no proof by themselves. A missing, empty, stripped or foreign proof, an unsecured token, content altered after signing, or a signer other than the named issuer or holder is refused; with the holder check requested, a credential asserted by the presenter itself is refused unless the presentation names its issuer as holder.",
  ["inputs", "configurations", "histories"], "all formats times all ways of removing, emptying, replacing or mismatching the proof, on generated credentials and presentations",
  "Each test covers one format and one way of tampering; a format or branch that skips the check is invisible to all tests of the others.",
  ["verifiable/credential.go", "verifiable/credential_parser.go", "verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/embedded_proof.go"],
  [("dispatch per format", "verifiable/credential.go ParseCredential, CheckProof"), ("presentation parsers", "verifiable/presentation_parser.go"), ("embedded proofs", "verifiable/embedded_proof.go")])

p("C15", "Hostile input is refused with an error and never crashes the process",
  "Whatever bytes are given as a credential, presentation, token, SD-JWT, presentation definition, submission, DID configuration, data URL, status list, time or JSON document, every parsing and verifying entry point returns a value or an error within bounded time and never panics. What was accepted can also be serialized, displayed and inspected without a panic.",
  ["inputs"], "all byte strings, in particular structurally mutated valid documents of every kind",
  "A test suite samples a few malformed inputs; absence of a crash is a statement about all of them.",
  ["verifiable", "jwt", "cwt", "sdjwt", "presexch", "status", "didconfig", "util", "dataintegrity"],
  [("entry points", "ParseCredential, ParsePresentation, jwt.Parse, cwt.Parse, holder.Parse, verifier.Parse, PresentationDefinition.Match, VerifyDIDAndDomain, VerifyStatus, VerifyProof")])

p("C16", "Derived credentials are independent and inputs are left unchanged",
  "Every operation that returns a modified copy of a credential changes only the member it names, as seen in contents and in serialized form alike, and leaves the original as it was. Serializing, presenting, matching, verifying or extracting contents changes neither the credential, nor the presentation, nor the documents passed in, and editing a returned document, contents value, claims set or display map does not reach back into the credential.",
  ["inputs", "histories"], "all credentials and all sequences of modifiers, reads and edits of returned values",
  "Aliasing shows only for particular sequences of operations and members, which unit tests of single setters do not cover.",
  ["verifiable/credential.go", "verifiable/presentation.go", "presexch/definition.go", "util/maphelpers/map.go", "util/json/json.go"],
  [("modifiers", "verifiable/credential.go WithModified*, SetCustomField"), ("copies", "verifiable/credential.go Contents, ToRawJSON; presentation.go Clone")])

p("C17", "A credential issued as SD-JWT shows exactly the disclosed claims",
  "A credential made selectively disclosable, signed, parsed, presented with a chosen subset of disclosures and parsed again verifies at each step, and its displayed form contains exactly the always-visible members and the disclosed subject claims with the original values. Requiring a claim that is not available fails, and disclosing everything shows the original credential.",
  ["inputs", "configurations", "histories"], "all credentials with generated subjects, format versions, hash algorithms, holder binding or none and disclosure choices",
  "The tests run one fixed credential and a few choices of names.",
  ["verifiable/credential_sdjwt.go", "sdjwt/issuer/issuer.go", "sdjwt/common/common.go"],
  [("issue", "verifiable/credential_sdjwt.go MakeSDJWT, makeSDJWT"), ("present", "verifiable/credential_sdjwt.go MarshalWithDisclosure"), ("display", "verifiable/credential_sdjwt.go CreateDisplayCredential, CreateDisplayCredentialMap")])

p("C18", "Revocation status equals the status list's bit and is never assumed good",
  "Checking the status of a credential reports it revoked exactly when the bit at the stated index of the published list for the stated purpose is set, for every supported status type. Whenever the status cannot be established (list unreachable, unverifiable, of another issuer or purpose or type, malformed, truncated, index invalid or out of range), the check fails with an error different from the revoked answer, and never succeeds.",
  ["inputs", "fault_sequences"], "all bit strings, indices, status entries, list encodings and failures of list retrieval",
  "Tests read one or two bits of a fixed list; off-by-one, bit order and boundary behaviour are properties of every index.",
  ["status", "status/validator", "status/internal/bitstring", "status/resolver"],
  [("check", "status/status.go VerifyStatus"), ("bit access", "status/internal/bitstring/bitstring.go"), ("entry validation", "status/validator"), ("retrieval", "status/resolver/resolver.go, status/internal/identityhub")])

p("C19", "Credential selection satisfies exactly what the presentation definition asks",
  "For every presentation definition and set of credentials, matching succeeds exactly when the constraints, schemas, formats and submission requirements can be satisfied by the given credentials, and then each descriptor's selection consists of given credentials that individually satisfy that descriptor. The built presentation contains the selected credentials, and each entry of its submission points at a credential satisfying the descriptor it names.",
  ["inputs", "configurations"], "all presentation definitions over descriptors, fields, filters, formats, schemas and nested submission requirements, and all credential sets",
  "Tests list a few dozen fixed definitions; satisfiability of nested rules over arbitrary sets needs a model to compare with.",
  ["presexch/definition.go", "presexch/internal/requirementlogic", "presexch/schema.go"],
  [("filtering", "presexch/definition.go applyRequirement, filterConstraints, filterField"), ("rule evaluation", "presexch/internal/requirementlogic"), ("submission map", "presexch/definition.go CreateVP, merge")])

p("C20", "Limited disclosure reveals what was requested and nothing more",
  "When a definition requires limited disclosure, each credential put into the presentation reveals every requested field that the holder's credential has, with the original value, and no other selectively hideable claim. A credential from which the requested fields cannot be selectively disclosed is not used for such a descriptor, and predicate fields of credentials that are not SD-JWT show whether the filter holds instead of the value.",
  ["inputs", "configurations"], "all credentials (SD-JWT of both versions, BBS+, plain) and field paths",
  "Over-disclosure shows only for particular nestings and path combinations.",
  ["presexch/definition.go", "verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go"],
  [("SD-JWT selection", "presexch/definition.go getLimitedDisclosures, filterConstraints"), ("predicates and templates", "presexch/definition.go createNewCredential")])

p("C21", "A verifier accepts exactly the submissions that fulfil its definition",
  "A presentation built for a definition from satisfying credentials is accepted when matched against the same definition, returning for each descriptor the credential the submission names. A submission is refused when it is missing, names another definition, lacks a required descriptor, points nowhere, or maps a descriptor to a credential that fails its schema, format or field filters.",
  ["inputs", "histories"], "all definitions and credentials, and all mutations of the submission, the definition or the credentials",
  "Tests match a few literal submissions; the mutations of the submission and the definition form a product space.",
  ["presexch/api.go", "presexch/definition.go"],
  [("match", "presexch/api.go Match, getMatchedCreds"), ("build", "presexch/definition.go CreateVP, CreateVPArray")])

p("C22", "A DID-domain link is accepted only with a valid credential for that pair",
  "Verifying a DID configuration for a DID and a domain succeeds only if it contains a domain linkage credential, as JSON-LD or JWT, whose issuer and subject are that DID, whose origin is that domain, which has the required type and dates, is not expired, has no forbidden members and verifies with a key of that DID. Unrelated or invalid entries beside a valid one neither prevent nor cause acceptance.",
  ["inputs", "configurations"], "all configurations mixing valid, foreign, expired, altered and malformed entries, in every order and both formats",
  "Tests use fixed configurations, each with a single defect.",
  ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"],
  [("verification", "didconfig/verifier/didconfig.go VerifyDIDAndDomain"), ("retrieval", "didconfig/client/didconfig.go")])

p("C23", "BBS+ derived credentials verify and reveal only the selected statements",
  "From a credential signed with a BBS+ suite, a derived proof for any valid reveal document verifies under the issuer's key with the same nonce, contains the mandatory and selected statements with their original values and none of the others. Altering the derived document, its proof or nonce, or checking it with another key fails.",
  ["inputs"], "all BBS+-signed credentials, reveal selections and nonces",
  "Tests derive a proof from one or two fixed documents with fixed frames.",
  ["verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go", "crypto-ext/verifiers/bbs", "proof/ldproofs/bbsblssignatureproof2020"],
  [("derivation", "verifiable/bbs_selective_disclosure.go BBSSelectiveDisclosure"), ("verification", "crypto-ext/verifiers/bbs/verifier.go")])

p("C24", "Related resources are accepted only when their digests match the fetched bytes",
  "With the related-resource check on, a credential or presentation is accepted only if every related resource can be fetched and its bytes hash to the stated digest under the stated supported algorithm, in each supported digest encoding. Any differing byte, unsupported or malformed digest and unreachable resource is refused with an error; the cache never makes a wrong digest pass.",
  ["inputs", "fault_sequences"], "all resource bytes, digest algorithms and encodings, several resources, HTTP failures and cached entries",
  "Tests check a couple of fixed digests.",
  ["verifiable/related_resource.go", "verifiable/credential.go", "verifiable/presentation.go"],
  [("validation", "verifiable/related_resource.go Validate, Fetch")])

p("C25", "Time, JSON and data URL helpers preserve their values",
  "Every timestamp accepted from text is written back as the same text while unchanged and denotes the same instant after a JSON round trip, and invalid timestamps are refused. Splitting, merging, copying and mapping JSON objects with custom members loses and invents nothing, keeps named and custom members apart and leaves the inputs unchanged, and data URLs (without media type parameters) decode to the media type, encoding and content they were made from.",
  ["inputs"], "all timestamps, JSON objects, member selections, media types and contents",
  "Tests use a few examples per helper; all higher-level round trips depend on these for every value.",
  ["util/time/time.go", "util/json/json.go", "util/maphelpers", "verifiable/common.go"],
  [("time wrapper", "util/time/time.go"), ("JSON helpers", "util/json/json.go"), ("data URLs", "verifiable/common.go NewDataURL, ParseDataURL")])

p("C26", "Credentials are accepted exactly when they satisfy the schemas they must satisfy",
  "A credential is accepted when it satisfies the data model's schema and every supported schema it references (unless the caller disabled those checks), and refused when required members are missing or ill-formed or when a referenced schema is violated or cannot be loaded. A cached schema gives the same decision as a freshly loaded one and expires no later than configured.",
  ["inputs", "configurations", "fault_sequences"], "all credentials with members removed or replaced by ill-typed values, generated referenced schemas, cache sizes and download failures",
  "Tests contain single fixed violations; the default schema's members and the cache's states form a larger space.",
  ["verifiable/credential.go", "verifiable/cache.go"],
  [("schema validation", "verifiable/credential.go validateCredentialUsingJSONSchema, getJSONSchema"), ("cache", "verifiable/credential.go ExpirableSchemaCache, CachingSchemaLoader")])

p("C27", "Strict validation refuses every member the JSON-LD contexts do not define",
  "Under strict validation, a credential or presentation whose members and types are all defined by its contexts is accepted, and adding an undefined member at any nesting level or an undefined type is refused. Base-context validation accepts only the base context and type, and the extended form exactly the listed additional ones.",
  ["inputs", "configurations"], "all credentials over the available contexts, all places at which an undefined member or type can be inserted, and all context and type lists",
  "Tests insert one undefined member at one place.",
  ["verifiable/credential.go", "verifiable/common.go", "verifiable/presentation.go"],
  [("JSON-LD validation", "verifiable/credential.go validateJSONLD, validateBaseContext*"), ("structure comparison", "did-go doc/ld/validator used from verifiable/credential.go")])

p("C28", "The in-memory store behaves like a map with tags for every operation sequence",
  "After any sequence of puts, batches, deletes and reads the in-memory store returns exactly the last value and tags written for each key, reports not-found for all others, keeps stores of different names apart, and a tag query iterates exactly once over each matching key. Values and tags handed in or out are independent of the stored ones' later history, and invalid keys, tags or expressions are refused without effect.",
  ["histories", "inputs"], "all sequences of store operations over several stores, keys, tags and queries",
  "The shared test-suite performs fixed scripts; interleavings of batches, deletes, overwrites and queries are unbounded.",
  ["legacy/mem/mem.go"],
  [("store", "legacy/mem/mem.go"), ("queries", "legacy/mem/mem.go Query, iterator")])

p("C29", "Shared objects give the same answers when used in parallel",
  "Verifying, parsing, issuing, matching, status checking and store access from many goroutines on shared objects gives each caller the answer it would get alone, without data races or crashes. No caller's options, keys or credentials influence another caller's result.",
  ["schedules", "histories"], "all interleavings of concurrent calls sharing a checker, signer, schema cache, definition, credential or store",
  "The existing tests are sequential.",
  ["proof/checker/checker.go", "dataintegrity", "verifiable/credential.go", "sdjwt", "presexch", "legacy/mem/mem.go", "status"],
  [("shared objects", "proof/checker ProofChecker, dataintegrity Signer/Verifier, ExpirableSchemaCache, PresentationDefinition, sdjwt issuer")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))

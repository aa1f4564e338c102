package props

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// ldSuite is a linked data proof suite with the context that defines it.
type ldSuite struct {
	name, ctx, ctx1 string // ctx1: with the VC 1.1 context
	kinds           []vk.Kind
	jws, value      bool
}

const (
	ctxEd2018 = "https://w3id.org/security/suites/ed25519-2018/v1"
	ctxEd2020 = "https://w3id.org/security/suites/ed25519-2020/v1"
	ctxJWS    = "https://w3id.org/security/suites/jws-2020/v1"
	ctxBBS    = "https://w3id.org/security/bbs/v1"
	ctxSecp   = "https://w3id.org/security/suites/secp256k1-2019/v1"
)

var (
	ldSuites = []ldSuite{
		{"Ed25519Signature2018", ctxEd2018, "", []vk.Kind{vk.EdDSA}, true, true},
		{"Ed25519Signature2020", ctxEd2020, ctxEd2020, []vk.Kind{vk.EdDSA}, false, true},
		{"JsonWebSignature2020", ctxJWS, ctxJWS, []vk.Kind{vk.EdDSA, vk.ES256, vk.ES384, vk.ES521, vk.ES256K, vk.PS256},
			true, true},
		{"EcdsaSecp256k1Signature2019", ctxSecp, "", []vk.Kind{vk.ES256K}, true, true},
		{"BbsBlsSignature2020", ctxBBS, ctxBBS, []vk.Kind{vk.BBS}, false, true},
	}
	ldSigned = []string{"type", "creator", "verificationMethod", "created", "domain", "proofPurpose", "challenge",
		"capabilityChain"}
)

// ldMessage is what a linked data proof of the document signs, and the signature of the proof.
func ldMessage(doc, p map[string]any) (msg, sig []byte, err error) {
	str := func(k string) string { s, _ := p[k].(string); return s } //nolint:errcheck

	if _, err = time.Parse(time.RFC3339, str("created")); err != nil {
		return nil, nil, err
	}

	if v, has := p["capabilityChain"]; has {
		if _, ok := v.([]any); !ok {
			return nil, nil, fmt.Errorf("capabilityChain")
		}
	}

	conf := map[string]any{"@context": doc["@context"]}

	for _, m := range ldSigned {
		if v, ok := p[m]; ok && v != "" && v != nil {
			if _, isStr := v.(string); isStr || m == "capabilityChain" {
				conf[m] = v
			}
		}
	}

	head := ""

	if _, has := p["proofValue"]; has {
		s := str("proofValue")

		if str("type") == "Ed25519Signature2020" {
			_, sig, err = multibase.Decode(s)
		} else {
			sig, err = base64.RawURLEncoding.DecodeString(s)
			if err != nil {
				sig, err = base64.StdEncoding.DecodeString(s)
			}
		}
	} else {
		parts := strings.Split(str("jws"), ".")
		if len(parts) != 3 {
			return nil, nil, fmt.Errorf("jws")
		}

		head = parts[0] + "."
		sig, err = base64.RawURLEncoding.DecodeString(parts[2])
		conf["@context"] = []any{"https://w3id.org/security/v2", ctxJWS}
	}

	if err != nil {
		return nil, nil, err
	}

	unsecured := vk.CloneMap(doc)
	delete(unsecured, "proof")

	d, err := canonical(unsecured, "")
	if err != nil {
		return nil, nil, err
	}

	o, err := canonical(conf, "")
	if err != nil {
		return nil, nil, err
	}

	if str("type") == "BbsBlsSignature2020" {
		return []byte(head + o + d), sig, nil
	}

	ho, hd := sha256.Sum256([]byte(o)), sha256.Sum256([]byte(d))

	return append(append([]byte(head), ho[:]...), hd[:]...), sig, nil
}

// refLD is a reference verifier of linked data proofs; it returns why a document is refused.
func refLD(doc map[string]any, vms []c05VM, issuer string) string {
	var proofs []any

	switch p := doc["proof"].(type) {
	case []any:
		proofs = p
	case map[string]any:
		proofs = []any{p}
	}

	if len(proofs) == 0 {
		return "no proof"
	}

	for _, e := range proofs {
		p, ok := e.(map[string]any)
		if !ok {
			return "proof is no object"
		}

		kid, _ := p["verificationMethod"].(string) //nolint:errcheck
		typ, _ := p["type"].(string)               //nolint:errcheck
		owner := issuer

		if owner == "" {
			owner = strings.Split(kid, "#")[0]
		}

		vm := resolveModel(vms, owner, kid)
		if vm == nil || !fits(typ, *vm) {
			return "key"
		}

		msg, sig, err := ldMessage(doc, p)
		if err != nil {
			return "malformed"
		}

		if vm.key.Kind == vk.BBS {
			var lines [][]byte

			for _, l := range strings.Split(string(msg), "\n") {
				if strings.TrimSpace(l) != "" {
					lines = append(lines, []byte(l))
				}
			}

			if err := bbs12381g2pub.New().Verify(lines, sig, vm.key.PubBytes); err != nil {
				return "signature"
			}
		} else if !refVerify(vm.key, msg, sig) {
			return "signature"
		}
	}

	return ""
}

// changeLD changes the document or one of its proofs.
func changeLD(rt *rapid.T, doc map[string]any, vms []c05VM) (map[string]any, string) {
	if rapid.Bool().Draw(rt, "changedoc") {
		return mutate(rt, doc)
	}

	out := vk.CloneMap(doc)
	list := asList(out["proof"])
	i := rapid.IntRange(0, len(list)-1).Draw(rt, "which")
	p := list[i].(map[string]any) //nolint:forcetypeassert

	what := vk.Pick(rt, "proofchange", "domain", "challenge", "created", "purpose", "vm", "type", "value", "header",
		"drop", "dropall", "empty", "reorder", "copy", "null", "member", "swapvalues", "representation", "chain")

	switch what {
	case "domain", "challenge":
		if _, ok := p[what]; ok && rapid.Bool().Draw(rt, "remove") {
			delete(p, what)
		} else {
			p[what] = vk.Pick[any](rt, "newvalue", "other", "", nil)
		}
	case "created":
		if rapid.Bool().Draw(rt, "remove") {
			delete(p, what)
		} else {
			p[what] = vk.Pick[any](rt, "newcreated", "2021-01-01T00:00:00Z", "2090-01-01T00:00:00Z", "2021-01-01", "")
		}
	case "purpose":
		p["proofPurpose"] = vk.Pick[any](rt, "newpurpose", "authentication", "keyAgreement", "", nil, "capabilityInvocation")
	case "chain":
		p["capabilityChain"] = vk.Pick[any](rt, "newchain", []any{"urn:a"}, []any{}, "urn:a")
	case "vm":
		p["verificationMethod"] = vk.Pick[any](rt, "newvm", vms[rapid.IntRange(0, len(vms)-1).Draw(rt, "vmkey")].id,
			"did:x:a#nokey", "did:x:a", "", nil, "did:x:none#k0", "#k0")
	case "type":
		p["type"] = vk.Pick[any](rt, "newtype", append(append([]any{}, "DataIntegrityProof", "", nil),
			"Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "BbsBlsSignature2020")...)
	case "header":
		if s, ok := p["jws"].(string); ok {
			parts := strings.Split(s, ".")
			hdr := vk.Pick(rt, "newheader", `{"alg":"none"}`, `{"alg":"EdDSA"}`, `{"alg":"ES256","b64":false,"crit":["b64"]}`, "")
			p["jws"] = vk.B64([]byte(hdr)) + ".." + parts[2]
		} else {
			p["jws"] = "e30.." + vk.B64([]byte("x"))
		}
	case "representation": // the same signature in the other member
		if s, ok := p["jws"].(string); ok {
			p["proofValue"] = strings.Split(s, ".")[2]
			delete(p, "jws")
		} else if s, ok := p["proofValue"].(string); ok {
			p["jws"] = "e30.." + strings.TrimPrefix(s, "z")
			delete(p, "proofValue")
		}
	case "value":
		member := "proofValue"
		if _, ok := p["jws"]; ok {
			member = "jws"
		}

		_, sig, err := ldMessage(doc, p)
		if err != nil {
			rt.Fatal(err)
		}

		sig = append([]byte{}, sig...)

		switch vk.Pick(rt, "newsig", "flip", "short", "empty", "none", "long", "zero") {
		case "flip":
			sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "byte")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		case "short":
			sig = sig[:len(sig)-1]
		case "empty":
			sig = nil
		case "none":
			delete(p, member)

			return out, "value none"
		case "long":
			sig = append(sig, 0)
		case "zero":
			sig = make([]byte, len(sig))
		}

		switch {
		case member == "jws":
			p[member] = strings.Split(p[member].(string), ".")[0] + ".." + vk.B64(sig)
		case p["type"] == "Ed25519Signature2020":
			p[member], _ = multibase.Encode(multibase.Base58BTC, sig)
		default:
			p[member] = vk.B64(sig)
		}
	case "drop":
		out["proof"] = append(append([]any{}, list[:i]...), list[i+1:]...)
	case "dropall":
		delete(out, "proof")
	case "empty":
		out["proof"] = vk.Pick[any](rt, "emptyas", []any{}, map[string]any{}, nil, "", false)
	case "reorder":
		out["proof"] = append(append([]any{}, list[i:]...), list[:i]...)
	case "copy":
		out["proof"] = append(append([]any{}, list...), vk.Clone(p))
	case "null":
		out["proof"] = append(append([]any{}, list...), vk.Pick[any](rt, "extra", nil, map[string]any{}, "x",
			map[string]any{"type": "JsonWebSignature2020"}))
	case "member":
		p["foo"] = "urn:x"
	case "swapvalues":
		if len(list) > 1 {
			q := list[(i+1)%len(list)].(map[string]any) //nolint:forcetypeassert
			for _, m := range []string{"proofValue", "jws"} {
				pv, qv := p[m], q[m]
				delete(p, m)
				delete(q, m)

				if qv != nil {
					p[m] = qv
				}

				if pv != nil {
					q[m] = pv
				}
			}
		} else {
			delete(p, "proofValue")
			delete(p, "jws")
		}
	}

	return out, what
}

// TestC03_Proofs: linked data proofs on documents, credentials, presentations and DID documents, against a reference.
func TestC03_Proofs(t *testing.T) {
	vk.Check(t, "the object is signed by the library and accepted, and a changed copy or another reading of it is judged "+
		"too; distinct by (object, suites, representation, change)", 700, 25000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()

		var vms []c05VM

		for _, d := range []string{issDID, "did:x:other"} {
			var list []vk.VM

			for _, kind := range []vk.Kind{vk.EdDSA, vk.ES256, vk.ES384, vk.ES521, vk.ES256K, vk.PS256, vk.BBS} {
				vm := c05VM{owner: d, id: d + "#" + string(kind), typ: "JsonWebKey2020", key: vk.GetKey(kind, d), place: "ref"}
				if kind == vk.BBS {
					vm.typ, vm.bytes = "Bls12381G2Key2020", true
				}

				list = append(list, vk.VM{Fragment: string(kind), Type: vm.typ, Bytes: vm.bytes, Key: vm.key})
				vms = append(vms, vm)
			}

			w.AddDID(d, list...)
		}

		kind := vk.Pick(rt, "object", "credential", "credential", "built", "document", "presentation", "did")

		// the suites of the proofs; they share what the contexts allow
		n := vk.Pick(rt, "proofs", 1, 1, 1, 2, 3)
		suites := []ldSuite{ldSuites[vk.Pick(rt, "suite", 0, 0, 1, 1, 2, 2, 3, 4)]}

		for len(suites) < n {
			suites = append(suites, ldSuites[vk.Pick(rt, "nextsuite", 0, 1, 2, 2, 3)])
		}

		var (
			raw      []byte
			err      error
			sign     func(pc *verifiable.LinkedDataProofContext) error
			finish   func() ([]byte, error)
			check    func(raw []byte) error
			base     string
			expected = issDID
			addCtx   []any

			onlyValid bool
		)

		ctxFor := func(v1 bool) {
			seen := map[string]bool{}

			for _, s := range suites {
				x := s.ctx
				if v1 {
					x = s.ctx1
				}

				if x != "" && !seen[x] {
					seen[x] = true
					addCtx = append(addCtx, x)
				}
			}
		}

		switch kind {
		case "credential", "built":
			doc, v := credGen{LD: true, Issuer: issDID, Valid: true, NoSchema: true}.draw(rt)
			ctxFor(v == 1)
			doc["@context"] = append(asList(doc["@context"]), addCtx...)
			base = fmt.Sprint("v", v)

			var cred *verifiable.Credential

			if kind == "credential" {
				cred, err = verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck())...)
			} else {
				cred, err = verifiable.CreateCredential(toContents(rt, doc), customOf(doc))
			}

			if err != nil {
				rt.Fatalf("making the credential: %v", err)
			}

			sign = func(pc *verifiable.LinkedDataProofContext) error { return cred.AddLinkedDataProof(pc, ldOpts()...) }
			finish = cred.MarshalJSON
			check = func(raw []byte) error {
				o := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker())}
				if onlyValid {
					o = append(o, verifiable.WithJSONLDOnlyValidRDF())
				}

				_, e := verifiable.ParseCredential(raw, parseOpts(o...)...)

				return e
			}
		case "presentation":
			vp, e := verifiable.NewPresentation()
			if e != nil {
				rt.Fatal(e)
			}

			ctxFor(true)

			vp.Context = append(vp.Context, vk.ExtContextURL)
			for _, x := range addCtx {
				vp.Context = append(vp.Context, x.(string))
			}

			vp.ID, vp.Holder = "urn:uuid:vp", issDID
			if rapid.Bool().Draw(rt, "custom") {
				vp.CustomFields = verifiable.CustomFields{"t1": vk.Word().Draw(rt, "custom")}
			}

			sign = func(pc *verifiable.LinkedDataProofContext) error { return vp.AddLinkedDataProof(pc, ldOpts()...) }
			finish = vp.MarshalJSON
			expected = ""
			check = func(raw []byte) error {
				_, e := verifiable.ParsePresentation(raw, verifiable.WithPresJSONLDDocumentLoader(vk.Loader()),
					verifiable.WithPresProofChecker(w.Checker()))

				return e
			}
		case "document":
			doc := ldObj(rt, 3)
			doc["id"] = vk.URI().Draw(rt, "docid")
			v1 := rapid.Bool().Draw(rt, "v1ctx")
			ctxFor(v1)

			doc["@context"] = append([]any{credCtx[2], vk.ExtContextURL}, addCtx...)
			if v1 {
				doc["@context"] = append([]any{credCtx[1], vk.ExtContextURL}, addCtx...)
			}

			sign = func(pc *verifiable.LinkedDataProofContext) error {
				return lddocument.NewDocumentSigner(pc.ProofCreator).Sign(&lddocument.SigningContext{
					SignatureType: pc.SignatureType, KeyType: pc.KeyType, Created: pc.Created,
					SignatureRepresentation: proof.SignatureRepresentation(pc.SignatureRepresentation),
					Domain:                  pc.Domain, Challenge: pc.Challenge, Purpose: pc.Purpose,
					VerificationMethod: pc.VerificationMethod, CapabilityChain: pc.CapabilityChain,
				}, doc, ldOpts()...)
			}
			finish = func() ([]byte, error) { return json.Marshal(doc) }
			expected = vk.Pick(rt, "expected", issDID, "", "did:x:other")
			check = func(raw []byte) error {
				var iss *string
				if expected != "" {
					iss = &expected
				}

				return lddocument.NewDocumentVerifier(w.Checker()).Verify(raw, iss, ldOpts()...)
			}
		case "did":
			res, e := w.Resolve(issDID)
			if e != nil {
				rt.Fatal(e)
			}

			suites = suites[:1]
			ctxFor(false)

			d := *res.DIDDocument
			d.VerificationMethod, d.Authentication, d.AssertionMethod = d.VerificationMethod[:1], nil, d.AssertionMethod[:1]
			d.Context = []any{"https://www.w3.org/ns/did/v1", ctxJWS}

			if addCtx[0] != ctxJWS {
				d.Context = append(d.Context.([]any), addCtx...)
			}

			signed := &d
			sign = func(pc *verifiable.LinkedDataProofContext) error {
				var e error
				signed, e = verifiable.AddDIDLinkedDataProof(signed, pc, ldOpts()...)

				return e
			}
			finish = func() ([]byte, error) { return signed.JSONBytes() }
			expected = ""
			check = func(raw []byte) error {
				d, e := did.ParseDocument(raw)
				if e != nil {
					return e
				}

				o := []verifiable.VerifyDIDOpt{verifiable.WithDIDProofChecker(w.Checker()), verifiable.WithDIDJSONLDDocumentLoader(vk.Loader())}
				if onlyValid {
					o = append(o, verifiable.WithDIDJSONLDOnlyValidRDF())
				}

				return verifiable.VerifyDIDProof(d, o...)
			}
		}

		made := ""
		var stated []map[string]any

		for _, s := range suites {
			key := vk.Pick(rt, "keykind", s.kinds...)
			owner := issDID

			if (kind == "document" || kind == "presentation") && vk.Coin(rt, "other", 4) {
				owner = "did:x:other"
			}

			created := time.Date(2021, 2, 3, 4, 5, rapid.IntRange(0, 59).Draw(rt, "second"), 0, time.UTC)
			k := vk.GetKey(key, owner)
			pc := &verifiable.LinkedDataProofContext{SignatureType: s.name, ProofCreator: k.Creator(), KeyType: k.KMSType,
				Created: &created, VerificationMethod: owner + "#" + string(key),
				SignatureRepresentation: verifiable.SignatureProofValue}

			if s.jws && (!s.value || rapid.Bool().Draw(rt, "jws")) {
				pc.SignatureRepresentation = verifiable.SignatureJWS
			}

			if rapid.Bool().Draw(rt, "challenge") {
				pc.Challenge = vk.Word().Draw(rt, "challengetext")
			}

			if rapid.Bool().Draw(rt, "domain") {
				pc.Domain = vk.Word().Draw(rt, "domaintext")
			}

			pc.Purpose = vk.Pick(rt, "purpose", "", "assertionMethod", "authentication")
			made += fmt.Sprintf("%s/%s/%d ", s.name, key, pc.SignatureRepresentation)

			purpose := pc.Purpose
			if purpose == "" {
				purpose = "assertionMethod"
			}

			stated = append(stated, map[string]any{"challenge": pc.Challenge, "domain": pc.Domain, "proofPurpose": purpose,
				"verificationMethod": pc.VerificationMethod, "type": s.name})

			if err = sign(pc); err != nil {
				rt.Fatalf("signing the %s %s with %s: %v", kind, base, made, err)
			}
		}

		if raw, err = finish(); err != nil {
			rt.Fatal(err)
		}

		var doc map[string]any
		if err = json.Unmarshal(raw, &doc); err != nil {
			rt.Fatal(err)
		}

		if len(asList(doc["proof"])) != len(suites) {
			rt.Fatalf("%d proofs were added, the %s has %s", len(suites), kind, vk.JS(doc["proof"]))
		}

		for i, p := range asList(doc["proof"]) {
			for k, want := range stated[i] {
				if got, _ := p.(map[string]any)[k].(string); got != want {
					rt.Fatalf("%s of the %d. proof of the %s was to be %q: %s", k, i+1, kind, want, vk.JS(p))
				}
			}
		}

		judge := func(d map[string]any, text string, what string, both bool) {
			if kind == "did" {
				// what counts is the DID document that was read, which has no members unknown to it
				if d = didRead([]byte(text)); d == nil {
					return
				}
			}

			why := refLD(d, vms, expected)
			e := check([]byte(text))
			c.Class("%s %s: %s", kind, strings.Fields(what)[0], why)

			// parsing has other reasons to refuse a changed credential or presentation
			if e == nil && why != "" || e != nil && why == "" && both {
				rt.Fatalf("%s (%s) %s: accepted %v (%v), reference says %q\nbefore: %s\nafter: %s", kind, made, what, e == nil, e,
					why, raw, text)
			}
		}

		judge(doc, string(raw), "as signed", true)
		judge(doc, shuffled(rt, doc), "reordered", true)

		// what is left of a valid document without its invalid statements is all of it
		onlyValid = true
		judge(doc, string(raw), "as signed, invalid statements left out", true)

		onlyValid = false

		changed, what := changeLD(rt, doc, vms)
		strict := kind == "document"
		if what == "member" && !strict {
			strict = false
		}

		judge(changed, vk.JS(changed), what, strict)

		c.NonTrivial(kind, base, made, what, expected)
		c.Sample(map[string]any{"object": kind, "proofs": made, "change": what, "proof": vk.JS(doc["proof"])})
	})
}

func TestC03_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		w := vk.NewWorld()
		w.AddDID(issDID, vk.VM{Fragment: "k", Key: vk.GetKey(vk.EdDSA, "k")})

		for _, p := range []any{[]any{}, nil, map[string]any{}, []any{nil}, "x"} {
			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential"}, "issuer": issDID,
				"issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": map[string]any{"id": "did:x:s"}, "proof": p,
			}
			raw := vk.MustJSON(doc)

			kc := c()
			kc.NonTrivial(string(raw))
			kc.Sample(vk.JS(p))

			if err := lddocument.NewDocumentVerifier(w.Checker()).Verify(raw, nil, ldOpts()...); err == nil {
				t.Fatalf("a document with proof %s is accepted", vk.JS(p))
			}

			if _, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithProofChecker(w.Checker()))...); err == nil {
				t.Fatalf("a credential with proof %s is accepted", vk.JS(p))
			}
		}
	})
}

// didRead is a DID document as it is after reading, nil if it is none.
func didRead(raw []byte) map[string]any {
	d, err := did.ParseDocument(raw)
	if err != nil {
		return nil
	}

	text, err := d.JSONBytes()
	if err != nil {
		return nil
	}

	var out map[string]any
	if json.Unmarshal(text, &out) != nil {
		return nil
	}

	return out
}

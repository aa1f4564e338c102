package props

import (
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

const diCtx = "https://w3id.org/security/data-integrity/v2"

// diKey is a verification method of the model.
type diKey struct {
	did, id  string
	key      *vk.Key
	rels     map[string]bool
	embedded bool
}

func (k diKey) may(purpose string) bool {
	return k.rels[purpose] || purpose == "assertionMethod" && !k.embedded
}

// diExpect is what a verifier expects.
type diExpect struct{ purpose, domain, challenge string }

var (
	diPurposes = []string{"assertionMethod", "authentication", "capabilityDelegation", "capabilityInvocation"}
	diRels     = map[string]did.VerificationRelationship{
		"assertionMethod": did.AssertionMethod, "authentication": did.Authentication,
		"capabilityDelegation": did.CapabilityDelegation, "capabilityInvocation": did.CapabilityInvocation,
		"keyAgreement": did.KeyAgreement,
	}
	diSuites = map[vk.Kind][]string{
		vk.ES256: {"ecdsa-2019", "ecdsa-rdfc-2019"}, vk.ES384: {"ecdsa-2019", "ecdsa-rdfc-2019"},
		vk.EdDSA: {"eddsa-rdfc-2022", "eddsa-2022"},
	}
	diMembers = []string{"type", "cryptosuite", "proofPurpose", "verificationMethod", "created", "expires", "domain", "challenge"}
)

// diHash is what a proof of the document signs, per the Data Integrity specifications.
func diHash(doc, p map[string]any, kind vk.Kind) ([]byte, error) {
	conf := map[string]any{"@context": doc["@context"]}

	for _, m := range diMembers {
		if v, ok := p[m]; ok && v != "" {
			conf[m] = v
		}
	}

	unsecured := vk.CloneMap(doc)
	delete(unsecured, "proof")

	var mda ld.MessageDigestAlgorithm

	if kind == vk.ES256 {
		mda = ld.MessageDigestAlgorithmSHA256
	} else if kind == vk.ES384 {
		mda = ld.MessageDigestAlgorithmSHA384
	}

	d, err := canonical(unsecured, mda)
	if err != nil {
		return nil, err
	}

	c, err := canonical(conf, mda)
	if err != nil {
		return nil, err
	}

	if kind == vk.ES384 {
		hc, hd := sha512.Sum384([]byte(c)), sha512.Sum384([]byte(d))

		return append(hc[:], hd[:]...), nil
	}

	hc, hd := sha256.Sum256([]byte(c)), sha256.Sum256([]byte(d))

	return append(hc[:], hd[:]...), nil
}

// refDI is a reference verifier; it returns why a document is refused ("" = accepted).
func refDI(doc map[string]any, keys []diKey, exp diExpect) string {
	var proofs []any

	switch p := doc["proof"].(type) {
	case []any:
		proofs = p
	case map[string]any:
		proofs = []any{p}
	}

	if len(proofs) == 0 {
		return "no proof"
	}

	for _, e := range proofs {
		p, ok := e.(map[string]any)
		if !ok {
			return "proof is no object"
		}

		str := func(k string) string { s, _ := p[k].(string); return s } //nolint:errcheck

		for _, m := range append([]string{"proofValue"}, diMembers...) {
			if v, has := p[m]; has && v != nil && str(m) == "" && v != "" {
				return m + " is no string"
			}
		}

		if str("type") != "DataIntegrityProof" {
			return "type"
		}

		if x := str("expires"); x != "" {
			t, err := time.Parse(time.RFC3339, x)
			if err != nil || time.Now().After(t) {
				return "expired"
			}
		}

		if exp.purpose != str("proofPurpose") || exp.domain != "" && exp.domain != str("domain") ||
			exp.challenge != "" && exp.challenge != str("challenge") {
			return "expectation"
		}

		var key *diKey

		for i := range keys {
			if keys[i].id == str("verificationMethod") {
				key = &keys[i]
			}
		}

		if key == nil || !key.may(exp.purpose) {
			return "key"
		}

		fit := false
		for _, s := range diSuites[key.key.Kind] {
			fit = fit || s == str("cryptosuite")
		}

		if !fit {
			return "suite"
		}

		_, sig, err := multibase.Decode(str("proofValue"))
		if err != nil {
			return "proof value"
		}

		h, err := diHash(doc, p, key.key.Kind)
		if err != nil {
			return "not canonicalizable"
		}

		if !refVerify(key.key, h, sig) {
			return "signature"
		}
	}

	return ""
}

// multikey is the Multikey form of a public key (did-go keeps the header for EC keys).
func multikey(k *vk.Key) []byte {
	if k.Kind == vk.EdDSA {
		return k.PubBytes
	}

	n := len(k.PubBytes) / 2
	x, y := new(big.Int).SetBytes(k.PubBytes[1:1+n]), new(big.Int).SetBytes(k.PubBytes[1+n:])
	head := []byte{0x80, 0x24}

	if k.Kind == vk.ES384 {
		head = []byte{0x81, 0x24}
	}

	return append(head, elliptic.MarshalCompressed(k.Kind.Curve(), x, y)...)
}

// drawDIWorld draws the DIDs and keys of a case.
func drawDIWorld(rt *rapid.T, kinds ...vk.Kind) (*vk.World, []diKey) {
	w := vk.NewWorld()

	var keys []diKey

	for _, d := range []string{"did:x:a", "did:x:b"} {
		var list []vk.VM

		for i, n := 0, vk.Size(rt, "keys", 1, 2); i < n; i++ {
			k := diKey{did: d, id: fmt.Sprintf("%s#k%d", d, i), rels: map[string]bool{},
				key: vk.GetKey(vk.Pick(rt, "kind", kinds...), fmt.Sprintf("%s%d", d, i))}

			def := vk.VM{Fragment: fmt.Sprintf("k%d", i), Key: k.key, Rels: []did.VerificationRelationship{}}

			if vk.Coin(rt, "multikey", 3) {
				def.Raw, def.Type = multikey(k.key), "Multikey"
			}

			for _, r := range append([]string{"keyAgreement"}, diPurposes...) {
				if vk.Coin(rt, r, 2) {
					k.rels[r] = true
					def.Rels = append(def.Rels, diRels[r])
				}
			}

			k.embedded = len(def.Rels) > 0 && vk.Coin(rt, "embedded", 3)
			def.Embedded = k.embedded

			keys, list = append(keys, k), append(list, def)
		}

		w.AddDID(d, list...)
	}

	return w, keys
}

// diDoc draws a JSON-LD document that defines the Data Integrity vocabulary.
func diDoc(rt *rapid.T) map[string]any {
	if vk.Coin(rt, "plaindoc", 4) {
		doc := ldObj(rt, 3)
		doc["@context"] = []any{"https://www.w3.org/ns/credentials/v2", vk.ExtContextURL}
		doc["id"] = vk.URI().Draw(rt, "docid")

		return doc
	}

	doc, v := credGen{LD: true}.draw(rt)
	if v == 1 {
		doc["@context"] = append(asList(doc["@context"]), diCtx)
	}

	return doc
}

func diTime(rt *rapid.T, label string) string {
	return timeText(rt, label, true, true)
}

// TestC04_Verifier: acceptance of documents by the verifier equals that of a reference verifier.
func TestC04_Verifier(t *testing.T) {
	vk.Check(t, "the case has a genuine proof by the library or the reference signer, and is either accepted or differs "+
		"from an accepted one by one change; distinct by (suite, number of proofs, change, expectation)", 700, 30000,
		func(rt *rapid.T, c *vk.Case) {
			w, keys := drawDIWorld(rt, vk.EdDSA, vk.EdDSA, vk.ES256, vk.ES256, vk.ES384)
			doc := diDoc(rt)
			exp := diExpect{purpose: vk.Pick(rt, "purpose", "assertionMethod", "assertionMethod", diPurposes[1], diPurposes[2],
				diPurposes[3])}
			domain, challenge := "", ""

			if rapid.Bool().Draw(rt, "hasdomain") {
				domain = vk.Word().Draw(rt, "domain")
			}

			if rapid.Bool().Draw(rt, "haschallenge") {
				challenge = vk.Str().Draw(rt, "challenge")
			}

			n := vk.Pick(rt, "proofs", 1, 1, 1, 2, 3)
			suites := ""

			for i := 0; i < n; i++ {
				var able []diKey

				for _, k := range keys {
					if k.may(exp.purpose) {
						able = append(able, k)
					}
				}

				unauthorised := len(able) == 0 || vk.Coin(rt, "unauthorised", 12)
				if unauthorised {
					able = keys
				}

				k := able[rapid.IntRange(0, len(able)-1).Draw(rt, "key")]
				unauthorised = !k.may(exp.purpose)
				suite := vk.Pick(rt, "suite", diSuites[k.key.Kind]...)
				suites += suite + " "
				p := map[string]any{"type": "DataIntegrityProof", "cryptosuite": suite, "proofPurpose": exp.purpose,
					"verificationMethod": k.id, "created": diTime(rt, "created")}

				if vk.Coin(rt, "otherpurpose", 12) {
					p["proofPurpose"] = vk.Pick(rt, "otherp", diPurposes...)
				}

				if domain != "" {
					p["domain"] = domain
				}

				if challenge != "" {
					p["challenge"] = challenge
				}

				switch rapid.IntRange(0, 5).Draw(rt, "expiry") {
				case 0:
					p["expires"] = "2080-05-06T07:08:09Z"
				case 1:
					if vk.Coin(rt, "expired", 3) {
						p["expires"] = vk.Pick(rt, "whenExpired", time.Now().Add(-time.Minute), time.Now().Add(-2*time.Second),
							time.Now().Add(-100*24*time.Hour), time.Date(1971, 2, 3, 4, 5, 6, 0, time.UTC)).UTC().Format(time.RFC3339)
					}
				}

				if rapid.Bool().Draw(rt, "library") {
					opts := &models.ProofOptions{Purpose: p["proofPurpose"].(string), VerificationMethodID: k.id,
						ProofType: models.DataIntegrityProof, SuiteType: suite, Domain: domain, Challenge: challenge}
					opts.Created, _ = time.Parse(time.RFC3339, p["created"].(string))

					if e, ok := p["expires"].(string); ok {
						opts.Expires, _ = time.Parse(time.RFC3339, e)
					}

					out, err := diSigner(w, k.key).AddProof(vk.MustJSON(doc), opts)
					if (err == nil) != k.may(opts.Purpose) {
						rt.Fatalf("adding a proof of purpose %s with key %s (relationships %v, embedded %v): %v", opts.Purpose,
							k.id, k.rels, k.embedded, err)
					}

					if err == nil {
						if json.Unmarshal(out, &doc) != nil {
							rt.Fatalf("signed document is no JSON: %s", out)
						}

						continue
					}
				}

				if vk.Coin(rt, "no created", 4) {
					delete(p, "created") // it is optional
				}

				h, err := diHash(doc, p, k.key.Kind)
				if err != nil {
					rt.Fatal(err)
				}

				p["proofValue"], _ = multibase.Encode(multibase.Base58BTC, mustSign(rt, k.key, h))

				switch old := doc["proof"].(type) {
				case nil:
					doc["proof"] = p
				case []any:
					doc["proof"] = append(old, p)
				default:
					doc["proof"] = []any{old, p}
				}
			}

			if n == 1 && vk.Coin(rt, "aslist", 4) {
				doc["proof"] = []any{doc["proof"]}
			}

			exp.domain = vk.Pick(rt, "expdomain", "", domain, domain, "other", vk.Near(rt, "near domain", domain))
			exp.challenge = vk.Pick(rt, "expchallenge", "", challenge, challenge, challenge+"x", vk.Near(rt, "near challenge", challenge))

			// a history of checks with the same options value: the genuine document and a changed one, in any order
			changed, what := changeDI(rt, doc, keys)
			docs := []map[string]any{doc, changed}

			if rapid.Bool().Draw(rt, "order") {
				docs = []map[string]any{changed, doc, changed}
			}

			opts := &models.ProofOptions{Purpose: exp.purpose, ProofType: models.DataIntegrityProof, Domain: exp.domain,
				Challenge: exp.challenge}
			v := diVerifier(w, vk.Loader())

			for _, d := range docs {
				text := []byte(vk.JS(d))
				if vk.Coin(rt, "reorder", 3) {
					text = []byte(shuffled(rt, d))
				}

				why := refDI(d, keys, exp)
				err := v.VerifyProof(text, opts)

				c.Class("%s: %s", strings.Fields(what)[0], why)

				if (err == nil) != (why == "") {
					rt.Fatalf("accepted %v (%v), reference says %q (change: %s)\nexpected %+v\nkeys %s\ndocument %s", err == nil,
						err, why, what, exp, showDI(keys), text)
				}
			}

			c.NonTrivial(suites, n, what, exp.purpose, exp.domain != "", exp.challenge != "")
			c.Sample(map[string]any{"proofs": vk.JS(doc["proof"]), "change": what, "expected": fmt.Sprintf("%+v", exp)})
		})
}

func showDI(keys []diKey) string {
	var out []string
	for _, k := range keys {
		out = append(out, fmt.Sprintf("%s %s %v embedded=%v", k.id, k.key.Kind, vk.SortedKeys(boolMap(k.rels)), k.embedded))
	}

	return strings.Join(out, "; ")
}

func boolMap(m map[string]bool) map[string]any {
	out := map[string]any{}
	for k := range m {
		out[k] = true
	}

	return out
}

// changeDI changes the document or one of its proofs.
func changeDI(rt *rapid.T, doc map[string]any, keys []diKey) (map[string]any, string) {
	if rapid.Bool().Draw(rt, "changedoc") {
		return mutate(rt, doc)
	}

	out := vk.CloneMap(doc)
	list := asList(out["proof"])
	i := rapid.IntRange(0, len(list)-1).Draw(rt, "which")
	p := list[i].(map[string]any) //nolint:forcetypeassert

	what := vk.Pick(rt, "proofchange", "domain", "challenge", "expires", "created", "purpose", "vm", "suite", "type",
		"value", "drop", "dropall", "empty", "reorder", "copy", "null", "member", "foreign", "swapvalues")

	switch what {
	case "domain", "challenge":
		if _, ok := p[what]; ok && rapid.Bool().Draw(rt, "remove") {
			delete(p, what)
		} else {
			p[what] = vk.Pick[any](rt, "newvalue", "other", "", nil, float64(3), []any{"x"})
		}
	case "expires":
		if _, ok := p[what]; ok && rapid.Bool().Draw(rt, "remove") {
			delete(p, what)
		} else {
			p[what] = vk.Pick[any](rt, "newexpiry", "2090-01-01T00:00:00Z", "2001-01-01T00:00:00Z", "soon", "")
		}
	case "created":
		if rapid.Bool().Draw(rt, "remove") {
			delete(p, what)
		} else {
			p[what] = vk.Pick[any](rt, "newcreated", "2021-01-01T00:00:00Z", "2090-01-01T00:00:00Z", "2021-01-01", "")
		}
	case "purpose":
		p["proofPurpose"] = vk.Pick[any](rt, "newpurpose", "assertionMethod", "authentication", "keyAgreement", "", nil)
	case "vm":
		p["verificationMethod"] = vk.Pick[any](rt, "newvm", keys[rapid.IntRange(0, len(keys)-1).Draw(rt, "vmkey")].id,
			"did:x:a#nokey", "did:x:a", "", nil, "did:x:none#k0", "#k0")
	case "suite":
		p["cryptosuite"] = vk.Pick[any](rt, "newsuite", "ecdsa-2019", "ecdsa-rdfc-2019", "eddsa-rdfc-2022", "eddsa-2022",
			"ecdsa-sd-2023", "", nil)
	case "type":
		p["type"] = vk.Pick[any](rt, "newtype", "Ed25519Signature2020", "", nil)
	case "value":
		s, _ := p["proofValue"].(string) //nolint:errcheck
		_, sig, err := multibase.Decode(s)

		if err != nil {
			rt.Fatal(err)
		}

		switch vk.Pick(rt, "newsig", "flip", "short", "empty", "none", "long", "raw", "zero") {
		case "flip":
			sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "byte")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		case "short":
			sig = sig[:len(sig)-1]
		case "empty":
			sig = nil
		case "none":
			delete(p, "proofValue")

			return out, "value none"
		case "long":
			sig = append(sig, 0)
		case "raw":
			p["proofValue"] = s[1:]

			return out, "value raw"
		case "zero":
			sig = make([]byte, len(sig))
		}

		p["proofValue"], _ = multibase.Encode(multibase.Base58BTC, sig)
	case "drop":
		out["proof"] = append(append([]any{}, list[:i]...), list[i+1:]...)
	case "dropall":
		delete(out, "proof")
	case "empty":
		out["proof"] = vk.Pick[any](rt, "emptyas", []any{}, map[string]any{}, nil, "", false)
	case "reorder":
		out["proof"] = append(append([]any{}, list[i:]...), list[:i]...)
	case "copy":
		out["proof"] = append(append([]any{}, list...), vk.Clone(p))
	case "null":
		out["proof"] = append(append([]any{}, list...), vk.Pick[any](rt, "extra", nil, map[string]any{}, "x",
			map[string]any{"type": "DataIntegrityProof"}))
	case "member":
		p[vk.Pick(rt, "extramember", "foo", "nonce", "id")] = "urn:x"
	case "foreign": // a proof of the same options over another document
		other := vk.CloneMap(out)
		other["id"] = "urn:other:" + vk.Word().Draw(rt, "otherdoc")

		for _, k := range keys {
			if k.id == p["verificationMethod"] {
				if h, err := diHash(other, p, k.key.Kind); err == nil {
					p["proofValue"], _ = multibase.Encode(multibase.Base58BTC, mustSign(rt, k.key, h))
				}
			}
		}
	case "swapvalues":
		if len(list) > 1 {
			q := list[(i+1)%len(list)].(map[string]any) //nolint:forcetypeassert
			p["proofValue"], q["proofValue"] = q["proofValue"], p["proofValue"]
		} else {
			p["proofValue"] = "z111111"
		}
	}

	return out, what
}

// TestC04_Objects: proofs added to credentials, presentations and DID documents through the library verify after
// serialization, and not after a change.
func TestC04_Objects(t *testing.T) {
	vk.Check(t, "the object was signed by the library and checked before and after one change", 400, 12000,
		func(rt *rapid.T, c *vk.Case) {
			w := vk.NewWorld()
			key := vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256, vk.ES384), "issuer")
			w.AddDID(issDID, vk.VM{Fragment: "k", Key: key})

			keys := []diKey{{did: issDID, id: issDID + "#k", key: key,
				rels: map[string]bool{"assertionMethod": true, "authentication": true}}}
			kind := vk.Pick(rt, "object", "credential", "credential", "built", "presentation", "did")
			purpose := vk.Pick(rt, "purpose", "assertionMethod", "authentication")
			domain, challenge := vk.Pick(rt, "domain", "", "d.example"), vk.Pick(rt, "challenge", "", "c-1")
			created := time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
			pc := &verifiable.DataIntegrityProofContext{SigningKeyID: keys[0].id, ProofPurpose: purpose,
				CryptoSuite: vk.Pick(rt, "suite", diSuites[key.Kind]...), Created: &created, Domain: domain, Challenge: challenge}

			if vk.Coin(rt, "expires", 3) {
				e := time.Date(2085, 1, 1, 0, 0, 0, 0, time.UTC)
				pc.Expires = &e
			}

			stated := map[string]any{"proofPurpose": purpose, "domain": domain, "challenge": challenge, "cryptosuite": pc.CryptoSuite,
				"verificationMethod": pc.SigningKeyID, "created": "2021-02-03T04:05:06Z", "expires": ""}
			if pc.Expires != nil {
				stated["expires"] = "2085-01-01T00:00:00Z"
			}

			if vk.Coin(rt, "created now", 4) {
				pc.Created = nil
				delete(stated, "created")
			}

			if purpose == "assertionMethod" && vk.Coin(rt, "usual purpose", 3) {
				pc.ProofPurpose = ""
			}

			signer := diSigner(w, key)
			times := vk.Pick(rt, "times", 1, 1, 2)

			var (
				raw   []byte
				err   error
				check func(raw []byte, exp diExpect) error
			)

			checkCred := func(raw []byte, exp diExpect) error {
				_, e := verifiable.ParseCredential(raw, parseOpts(
					verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader())),
					verifiable.WithExpectedDataIntegrityFields(exp.purpose, exp.domain, exp.challenge))...)

				return e
			}

			switch kind {
			case "credential", "built":
				doc, v := credGen{LD: true, Issuer: issDID, Valid: true, NoSchema: true}.draw(rt)
				if v == 1 {
					doc["@context"] = append(asList(doc["@context"]), diCtx)
				}

				var cred *verifiable.Credential

				if kind == "credential" {
					cred, err = verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck())...)
				} else {
					cc, custom := toContents(rt, doc), customOf(doc)
					cred, err = verifiable.CreateCredential(cc, custom)
				}

				if err != nil {
					rt.Fatalf("making the credential: %v", err)
				}

				for i := 0; i < times; i++ {
					if err = cred.AddDataIntegrityProof(pc, signer); err != nil {
						rt.Fatalf("adding the proof: %v", err)
					}
				}

				raw, err = cred.MarshalJSON()
				check = checkCred
			case "presentation":
				vp, e := verifiable.NewPresentation(verifiable.WithBaseContext(vk.Pick(rt, "vpctx", verifiable.V1ContextURI,
					verifiable.V2ContextURI)))
				if e != nil {
					rt.Fatal(e)
				}

				vp.Context = append(vp.Context, vk.ExtContextURL)
				if vp.Context[0] == verifiable.V1ContextURI {
					vp.Context = append(vp.Context, diCtx)
				}

				vp.ID, vp.Holder = "urn:uuid:vp", issDID
				if rapid.Bool().Draw(rt, "custom") {
					vp.CustomFields = verifiable.CustomFields{"t1": vk.Word().Draw(rt, "custom")}
				}

				for i := 0; i < times; i++ {
					if err = vp.AddDataIntegrityProof(pc, signer); err != nil {
						rt.Fatalf("adding the proof: %v", err)
					}
				}

				raw, err = vp.MarshalJSON()
				check = func(raw []byte, exp diExpect) error {
					_, e := verifiable.ParsePresentation(raw, verifiable.WithPresJSONLDDocumentLoader(vk.Loader()),
						verifiable.WithPresDataIntegrityVerifier(diVerifier(w, vk.Loader())),
						verifiable.WithPresExpectedDataIntegrityFields(exp.purpose, exp.domain, exp.challenge))

					return e
				}
			case "did":
				doc, e := w.Resolve(issDID)
				if e != nil {
					rt.Fatal(e)
				}

				d := *doc.DIDDocument
				d.Context = []interface{}{"https://www.w3.org/ns/did/v1", diCtx}
				signed, e := verifiable.AddDIDDataIntegrityProof(&d, pc, signer)

				if e != nil {
					rt.Fatalf("adding the proof: %v", e)
				}

				times = 1
				backwards := rapid.Bool().Draw(rt, "options backwards")
				raw, err = signed.JSONBytes()
				check = func(raw []byte, exp diExpect) error {
					d, e := did.ParseDocument(raw)
					if e != nil {
						return e
					}

					// options in either order
					o := []verifiable.VerifyDIDOpt{verifiable.WithDIDDataIntegrityVerifier(diVerifier(w, vk.Loader())),
						verifiable.WithDIDExpectedDataIntegrityFields(exp.purpose, exp.domain, exp.challenge), verifiable.WithDIDJSONLDDocumentLoader(vk.Loader())}
					if backwards {
						o[0], o[1] = o[1], o[0]
					}

					return verifiable.VerifyDIDProof(d, o...)
				}
			}

			if err != nil {
				rt.Fatal(err)
			}

			var doc map[string]any
			if err = json.Unmarshal(raw, &doc); err != nil {
				rt.Fatal(err)
			}

			if n := len(asList(doc["proof"])); n != times {
				rt.Fatalf("%d proofs were added, the %s has %d: %s", times, kind, n, raw)
			}

			for _, p := range asList(doc["proof"]) {
				for k, want := range stated {
					if got, _ := p.(map[string]any)[k].(string); got != want {
						rt.Fatalf("%s of the proof was to be %q: %s", k, want, raw)
					}
				}
			}

			exp := diExpect{purpose, vk.Pick(rt, "expdomain", "", domain), vk.Pick(rt, "expchallenge", "", challenge)}

			c.Class("%s x%d", kind, times)
			c.NonTrivial(kind, times, string(raw))
			c.Sample(string(raw))

			if why := refDI(doc, keys, exp); why != "" {
				rt.Fatalf("the library's proof is not valid (%s): %s", why, raw)
			}

			if err = check(raw, exp); err != nil {
				rt.Fatalf("signed %s refused: %v\n%s", kind, err, raw)
			}

			for _, wrong := range []diExpect{{purpose, "wrong.example", exp.challenge}, {purpose, exp.domain, "wrong"},
				{map[string]string{"assertionMethod": "authentication", "authentication": "assertionMethod"}[purpose], exp.domain,
					exp.challenge}} {
				if check(raw, wrong) == nil {
					rt.Fatalf("%s accepted although %+v is expected: %s", kind, wrong, raw)
				}
			}

			changed, what := changeDI(rt, doc, keys)
			c.Class("%s changed: %s", kind, strings.Fields(what)[0])

			if kind == "did" {
				if changed = didRead(vk.MustJSON(changed)); changed == nil {
					return
				}
			}

			if check(vk.MustJSON(changed), exp) == nil && refDI(changed, keys, exp) != "" {
				rt.Fatalf("%s accepted after change %q: %s\nbefore: %s", kind, what, vk.MustJSON(changed), raw)
			}
		})
}

// TestC04_Findings: options of proofs on documents whose contexts do not define the Data Integrity vocabulary.
func TestC04_Findings(t *testing.T) {
	w := vk.NewWorld()
	key := vk.GetKey(vk.EdDSA, "issuer")
	w.AddDID(issDID, vk.VM{Fragment: "k", Key: key})

	accepted := func(t *testing.T, ctx any, what string) bool {
		doc := map[string]any{"@context": ctx, "type": []any{"VerifiableCredential"}, "id": "urn:x", "issuer": issDID,
			"issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": map[string]any{"id": "did:x:s"}}

		out, err := diSigner(w, key).AddProof(vk.MustJSON(doc), &models.ProofOptions{Purpose: "assertionMethod",
			VerificationMethodID: issDID + "#k", ProofType: models.DataIntegrityProof, SuiteType: "eddsa-rdfc-2022",
			Created: time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC), Challenge: "c1", Domain: "d1",
			Expires: time.Date(2081, 1, 1, 0, 0, 0, 0, time.UTC)})
		if err != nil {
			t.Logf("not signed: %v", err)

			return false
		}

		changed := strings.NewReplacer(`"c1"`, `"c2"`, `"2081-`, `"2091-`).Replace(string(out))
		if what == "" {
			changed = string(out)
		}

		err = diVerifier(w, vk.Loader()).VerifyProof([]byte(changed), &models.ProofOptions{Purpose: "assertionMethod",
			ProofType: models.DataIntegrityProof})

		return err == nil
	}

	vk.Enum(t, "every document", func(t *testing.T, c func() *vk.Case) {
		for i, ctx := range []any{[]any{verifiable.V1ContextURI, diCtx}, []any{verifiable.V2ContextURI}} {
			kc := c()
			kc.NonTrivial(i)
			kc.Sample(ctx)

			if !accepted(t, ctx, "") || accepted(t, ctx, "change") {
				t.Fatalf("contexts %v: a genuine proof is refused or a changed one accepted", ctx)
			}
		}
	})

	vk.Known(t, "undefined-proof-terms", func() bool {
		return accepted(t, []any{verifiable.V1ContextURI}, "change")
	})
}

package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/veraison/go-cose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// c05VM is a verification method of a model world.
type c05VM struct {
	owner string // DID document it is listed in
	id    string
	typ   string
	bytes bool
	key   *vk.Key
	// place: "list", "ref" (list + relationships), "emb" (embedded in non agreement relationship), "agree" (embedded in
	// key agreement only)
	place string
}

// family is the key type a kind of key has.
func family(k vk.Kind) string {
	switch k {
	case vk.RS256, vk.PS256:
		return "RSA"
	}

	return string(k)
}

// fits: the verification method can be used to check proofs of the scheme. Independent of the library's tables.
func fits(scheme string, vm c05VM) bool {
	fam := family(vm.key.Kind)

	jwkOnly := func(f string) bool { return vm.typ == "JsonWebKey2020" && !vm.bytes && fam == f }
	either := func(typ, f string) bool { return jwkOnly(f) || vm.typ == typ && (vm.bytes || fam == f) }

	switch scheme {
	case "EdDSA", "Ed25519Signature2018":
		return either("Ed25519VerificationKey2018", "EdDSA")
	case "Ed25519Signature2020":
		return either("Ed25519VerificationKey2018", "EdDSA") || either("Ed25519VerificationKey2020", "EdDSA")
	case "ES256", "ES384", "ES521":
		return jwkOnly(scheme)
	case "ES256K", "EcdsaSecp256k1Signature2019":
		return either("EcdsaSecp256k1VerificationKey2019", "ES256K")
	case "RS256", "PS256":
		return either("RsaVerificationKey2018", "RSA")
	case "BbsBlsSignature2020":
		return either("Bls12381G2Key2020", "BBS")
	case "JsonWebSignature2020":
		return vm.typ == "JsonWebKey2020" && !vm.bytes && fam != "BBS"
	}

	return false
}

// schemeKinds are the kinds of signature a scheme accepts.
func schemeKinds(scheme string) []vk.Kind {
	switch scheme {
	case "Ed25519Signature2018", "Ed25519Signature2020":
		return []vk.Kind{vk.EdDSA}
	case "EcdsaSecp256k1Signature2019":
		return []vk.Kind{vk.ES256K}
	case "BbsBlsSignature2020":
		return []vk.Kind{vk.BBS}
	case "JsonWebSignature2020":
		return []vk.Kind{vk.EdDSA, vk.ES256K, vk.PS256, vk.ES256, vk.ES384, vk.ES521}
	}

	return []vk.Kind{vk.Kind(scheme)}
}

var (
	c05Types = []string{
		"JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020",
		"EcdsaSecp256k1VerificationKey2019", "RsaVerificationKey2018", "Bls12381G2Key2020",
	}
	c05LD = []string{
		"Ed25519Signature2018", "Ed25519Signature2020", "EcdsaSecp256k1Signature2019", "JsonWebSignature2020",
		"BbsBlsSignature2020",
	}
	c05COSE = map[vk.Kind]cose.Algorithm{
		vk.EdDSA: cose.AlgorithmEdDSA, vk.ES256: cose.AlgorithmES256, vk.ES384: cose.AlgorithmES384,
		vk.PS256: cose.AlgorithmPS256, vk.RS256: -257,
	}
)

// properType is the usual verification method type of a kind.
func properType(rt *rapid.T, k vk.Kind) (string, bool) {
	own := map[vk.Kind]string{
		vk.EdDSA: "Ed25519VerificationKey2018", vk.ES256K: "EcdsaSecp256k1VerificationKey2019",
		vk.RS256: "RsaVerificationKey2018", vk.PS256: "RsaVerificationKey2018", vk.BBS: "Bls12381G2Key2020",
	}[k]

	if own == "" || vk.Coin(rt, "jwk2020", 2) && k != vk.BBS {
		return "JsonWebKey2020", false
	}

	if k == vk.EdDSA && vk.Coin(rt, "ed2020", 3) {
		own = "Ed25519VerificationKey2020"
	}

	return own, k == vk.BBS || rapid.Bool().Draw(rt, "bytes")
}

// drawWorld draws DIDs with keys spread over relationships; keys are shared between methods now and then.
func drawWorld(rt *rapid.T, kinds []vk.Kind) (*vk.World, []c05VM) {
	w := vk.NewWorld()

	var vms []c05VM

	for _, owner := range []string{"did:x:a", "did:x:b", "did:x:ab", "did:x:A"}[:rapid.IntRange(1, 4).Draw(rt, "dids")] {
		var list []vk.VM

		for i, n := 0, vk.Size(rt, "vms", 1, 3); i < n; i++ {
			kind := vk.Pick(rt, "kind", kinds...)
			key := vk.GetKey(kind, vk.Pick(rt, "label", "k1", "k2"))
			typ, raw := properType(rt, kind)

			if vk.Coin(rt, "oddtype", 6) {
				typ, raw = vk.Pick(rt, "type", c05Types...), rapid.Bool().Draw(rt, "raw") || kind == vk.BBS
			}

			frag := fmt.Sprintf("key-%d", i)
			if i < 5 && vk.Coin(rt, "alike", 4) { // ids that are alike: one the other's end, or in other case
				frag = []string{"key-0", "KEY-0", "Key-0", "y-0", "key-0x"}[i]
			}

			vm := c05VM{owner: owner, id: owner + "#" + frag, typ: typ, bytes: raw, key: key,
				place: vk.Pick(rt, "place", "ref", "list", "emb", "agree", "refagree")}
			def := vk.VM{Fragment: frag, Type: typ, Key: key, Bytes: raw}

			if vk.Coin(rt, "foreignid", 8) { // a method with an id of another DID
				vm.id = vk.Pick(rt, "foreign", "did:x:b", "did:x:c") + "#f" + fmt.Sprint(len(vms))
				def.ID = vm.id
			}

			rel := vk.Pick(rt, "rel", did.AssertionMethod, did.Authentication, did.CapabilityDelegation,
				did.CapabilityInvocation)

			switch vm.place {
			case "ref":
				def.Rels = []did.VerificationRelationship{rel}
			case "list":
				def.ListOnly = true
			case "emb":
				def.Embedded, def.Rels = true, []did.VerificationRelationship{rel}
			case "agree":
				def.Embedded, def.Rels = true, []did.VerificationRelationship{did.KeyAgreement}
			case "refagree":
				def.Rels = []did.VerificationRelationship{did.KeyAgreement}
			}

			vms = append(vms, vm)
			list = append(list, def)
		}

		w.AddDID(owner, list...)
	}

	return w, vms
}

// resolveModel finds the method an issuer's document lists under a key id.
func resolveModel(vms []c05VM, issuer, kid string) *c05VM {
	for i := range vms {
		if vms[i].owner == issuer && vms[i].id == kid && vms[i].place != "agree" {
			return &vms[i]
		}
	}

	return nil
}

func drawKid(rt *rapid.T, base c05VM, vms []c05VM) string {
	if !vk.Coin(rt, "oddkid", 5) {
		return base.id
	}

	frag := base.id[strings.Index(base.id, "#"):]

	return vk.Pick(rt, "kid", vms[rapid.IntRange(0, len(vms)-1).Draw(rt, "other")].id, base.owner, frag, frag[1:],
		base.id+"x", base.id[:len(base.id)-1], "", strings.ToUpper(base.id), base.id+"#"+frag, "did:x:nowhere"+frag,
		base.owner+"?v=1"+frag, base.owner+"/p"+frag, " "+base.id)
}

func drawExpected(rt *rapid.T, base c05VM) string {
	if !vk.Coin(rt, "oddissuer", 5) {
		return base.owner
	}

	return vk.Pick(rt, "issuer", "did:x:a", "did:x:b", "did:x:ab", "did:x", "", "did:x:none", base.id, base.owner+" ")
}

// TestC05_Keys: which keys a proof checker accepts, against a model of the DID documents and of the proof schemes.
func TestC05_Keys(t *testing.T) {
	vk.Check(t, "the verification method exists in the expected issuer's DID document, or the model refuses for a reason "+
		"other than a made up key id", 4000, 150000, func(rt *rapid.T, c *vk.Case) {
		mode := vk.Pick(rt, "mode", "jwt", "jwt", "ld", "cwt")

		kinds := []vk.Kind{vk.EdDSA, vk.ES256, vk.ES256K, vk.ES384, vk.ES521, vk.RS256, vk.PS256}
		if mode == "ld" {
			kinds = append(kinds, vk.BBS)
		}

		w, vms := drawWorld(rt, kinds)
		base := vms[rapid.IntRange(0, len(vms)-1).Draw(rt, "base")]
		kid, issuer := drawKid(rt, base, vms), drawExpected(rt, base)

		signer := base.key
		if vk.Coin(rt, "othersigner", 6) {
			signer = vk.GetKey(vk.Pick(rt, "skind", kinds...), vk.Pick(rt, "slabel", "k1", "k2"))
		}

		var scheme string

		switch {
		case mode == "ld":
			scheme = vk.Pick(rt, "ldscheme", c05LD...)

			if !vk.Coin(rt, "anyscheme", 4) {
				var ok []string

				for _, s := range c05LD {
					for _, k := range schemeKinds(s) {
						if k == signer.Kind {
							ok = append(ok, s)
						}
					}
				}

				if len(ok) > 0 {
					scheme = vk.Pick(rt, "fitscheme", ok...)
				}
			}
		default:
			scheme = string(signer.Kind)
			if vk.Coin(rt, "otheralg", 5) {
				scheme = vk.Pick(rt, "alg", "EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "none", "HS256",
					"ES512", "es256")
			}
		}

		msg := []byte("message " + vk.Word().Draw(rt, "msg"))

		sig, err := signer.Sign(msg)
		if err != nil {
			rt.Fatal(err)
		}

		badsig := vk.Coin(rt, "badsig", 12)
		if badsig {
			sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "at")] ^= 1
		}

		want := false

		vm := resolveModel(vms, issuer, kid)
		if vm != nil && fits(scheme, *vm) && family(vm.key.Kind) == family(signer.Kind) && vm.key.Label == signer.Label {
			for _, k := range schemeKinds(scheme) {
				if k == signer.Kind {
					// the signature bytes decide the rest
					want = k == vk.BBS && !badsig || k != vk.BBS && refVerify(signer, msg, sig)
				}
			}
		}

		chk := w.Checker()

		switch mode {
		case "jwt":
			err = chk.CheckJWTProof(jose.Headers{"alg": scheme, "kid": kid}, issuer, msg, sig)
		case "ld":
			p := &proof.Proof{Type: scheme, VerificationMethod: kid}
			if vk.Coin(rt, "creator", 4) {
				p = &proof.Proof{Type: scheme, Creator: kid}
			}

			err = chk.CheckLDProof(p, issuer, msg, sig)
		case "cwt":
			alg, ok := c05COSE[vk.Kind(scheme)]
			if !ok {
				alg = vk.Pick(rt, "cosealg", cose.Algorithm(0), cose.AlgorithmPS512, cose.AlgorithmES512, -47)
				want = false // no COSE algorithm of the library
			}

			err = chk.CheckCWTProof(checker.CheckCWTProofRequest{KeyID: kid, Algo: alg}, issuer, msg, sig)
		}

		c.Class("%s/accept=%v", mode, want)

		if vm != nil {
			c.Class("place %s/%v", vm.place, want)
			c.NonTrivial(mode, scheme, vm.typ, vm.bytes, vm.place, vm.key.Kind, signer.Kind, want)
		} else if base.place == "agree" || kid == base.id {
			c.NonTrivial(mode, base.place, issuer == base.owner, scheme)
		}

		c.Sample(map[string]any{"mode": mode, "kid": kid, "issuer": issuer, "scheme": scheme, "accept": want,
			"base": fmt.Sprintf("%s %s bytes=%v %s %s", base.id, base.typ, base.bytes, base.place, base.key.Kind)})

		if (err == nil) != want {
			rt.Fatalf("%s proof of scheme %s by key %s/%s, key id %q, expected issuer %q: accepted %v, want %v (%v)\n"+
				"methods: %s", mode, scheme, signer.Kind, signer.Label, kid, issuer, err == nil, want, err, showVMs(vms))
		}
	})
}

func mustSign(rt *rapid.T, k *vk.Key, msg []byte) []byte {
	s, err := k.Sign(msg)
	if err != nil {
		rt.Fatal(err)
	}

	return s
}

func showVMs(vms []c05VM) string {
	var out []string
	for _, v := range vms {
		out = append(out, fmt.Sprintf("[%s: %s %s bytes=%v %s %s/%s]", v.owner, v.id, v.typ, v.bytes, v.place, v.key.Kind,
			v.key.Label))
	}

	return strings.Join(out, " ")
}

// TestC05_JWTIssuer: the issuer a JWT names must own the key; without issuer check the DID of the key id must.
func TestC05_JWTIssuer(t *testing.T) {
	vk.Check(t, "the signature is genuine", 4000, 100000, func(rt *rapid.T, c *vk.Case) {
		w, vms := drawWorld(rt, []vk.Kind{vk.EdDSA, vk.ES256})
		base := vms[rapid.IntRange(0, len(vms)-1).Draw(rt, "base")]
		kid := drawKid(rt, base, vms)

		check := !vk.Coin(rt, "nocheck", 4)
		payload := map[string]any{"x": vk.Word().Draw(rt, "x")}
		text := ""
		iss := drawExpected(rt, base)
		hasIss := true

		switch rapid.IntRange(0, 8).Draw(rt, "issform") {
		default:
			payload["iss"] = iss
		case 6:
			hasIss = false
		case 7: // an escaped member name is still the issuer
			text = fmt.Sprintf(`{"x":1,"\u0069ss":%s}`, vk.JS(iss))
		case 8: // decoys
			payload["iss"] = iss
			payload["issuer"] = base.owner
			payload["vc"] = map[string]any{"issuer": base.owner, "iss": base.owner}
		}

		if text == "" {
			text = vk.JS(payload)
		}

		token := vk.MakeJWS(map[string]any{"alg": string(base.key.Kind), "kid": kid, "typ": "JWT"}, []byte(text), base.key)

		expected := iss
		if !check {
			expected = strings.Split(kid, "#")[0]
			if !strings.Contains(kid, "#") {
				expected = kid
			}
		}

		vm := resolveModel(vms, expected, kid)
		want := vm != nil && fits(string(base.key.Kind), *vm) && vm.key == base.key && (!check || hasIss)

		_, _, err := jwt.ParseAndCheckProof(token, w.Checker(), check)

		c.Class("check=%v iss=%v accept=%v", check, hasIss, want)
		c.NonTrivial(check, hasIss, kid == base.id, iss == base.owner, base.place, base.typ, base.bytes)
		c.Sample(map[string]any{"payload": text, "kid": kid, "check": check, "accept": want})

		if (err == nil) != want {
			rt.Fatalf("JWT with kid %q, payload %s, issuer checked %v: accepted %v, want %v (%v)\nmethods: %s",
				kid, text, check, err == nil, want, err, showVMs(vms))
		}
	})
}

// TestC05_Credential: an accepted credential is by a key that its issuer's DID document lists.
func TestC05_Credential(t *testing.T) {
	loader := vk.Loader()
	epoch := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	vk.Check(t, "the credential is genuinely signed by the key its proof names", 700, 20000,
		func(rt *rapid.T, c *vk.Case) {
			form := vk.Pick(rt, "form", "jwt", "jwt", "cwt", "ld", "di")

			kinds := []vk.Kind{vk.EdDSA, vk.ES256}
			w := vk.NewWorld()

			var vms []c05VM

			issuers := []string{"did:x:a", "did:x:b", "did:x:c"}
			for _, d := range issuers[:2] {
				key := vk.GetKey(vk.Pick(rt, "kind", kinds...), d)
				vms = append(vms, c05VM{owner: d, id: d + "#k", typ: "JsonWebKey2020", key: key, place: "ref"})
				list := []vk.VM{{Fragment: "k", Key: key}}

				if d == "did:x:b" && vk.Coin(rt, "foreign", 4) { // b also lists a's key
					vms = append(vms, c05VM{owner: d, id: "did:x:a#k", typ: "JsonWebKey2020", key: vms[0].key, place: "ref"})
					list = append(list, vk.VM{ID: "did:x:a#k", Key: vms[0].key})
				}

				w.AddDID(d, list...)
			}

			signer := vms[rapid.IntRange(0, len(vms)-1).Draw(rt, "signer")]
			issuer := signer.owner

			if vk.Coin(rt, "otherissuer", 2) {
				issuer = vk.Pick(rt, "issuer", "did:x:a", "did:x:b", "did:x:c", "did:x:A", "https://x.example/a", "did:x:a#k")
			}

			ctx := []any{verifiable.V1ContextURI, "https://w3id.org/security/data-integrity/v2"}

			var issuerVal any = issuer
			if rapid.Bool().Draw(rt, "issuerobj") {
				issuerVal = map[string]any{"id": issuer}
			}

			doc := map[string]any{
				"@context": ctx, "type": []any{"VerifiableCredential"}, "issuer": issuerVal,
				"issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": map[string]any{"id": "did:x:s"},
			}

			var (
				raw      []byte
				err      error
				noIssuer bool
				opts     = parseOpts()
			)

			switch form {
			case "jwt", "cwt":
				vcMap := vk.CloneMap(doc)
				delete(vcMap, "issuanceDate")

				claims := map[string]any{"vc": vcMap, "nbf": float64(epoch.Unix()), "sub": "did:x:s"}

				switch rapid.IntRange(0, 4).Draw(rt, "issclaim") {
				case 0: // only in vc
				case 1:
					claims["iss"] = vk.Pick(rt, "issother", issuers...)
				case 2:
					delete(vcMap, "issuer")
					claims["iss"] = issuer
				default:
					claims["iss"] = issuer
				}

				if form == "jwt" {
					raw = []byte(vk.MakeJWS(map[string]any{"alg": string(signer.key.Kind), "kid": signer.id, "typ": "JWT"},
						vk.MustJSON(claims), signer.key))
				} else {
					vcMap["issuanceDate"] = doc["issuanceDate"]

					cw := map[any]any{"vc": vcMap, "nbf": epoch.Unix(), "sub": "did:x:s"}
					if v, ok := claims["iss"]; ok {
						cw["iss"] = v
					}

					noIssuer = vcMap["issuer"] == nil
					raw = signCWT(rt, cw, signer)
				}
			case "ld":
				raw = signLD(rt, doc, signer)
			case "di":
				raw = signDI(rt, doc, signer, w)
			}

			if form == "di" {
				opts = append(opts, verifiable.WithDataIntegrityVerifier(diVerifier(w, loader)))
			}

			opts = append(opts, verifiable.WithProofChecker(w.Checker()))

			cred, err := verifiable.ParseCredential(raw, opts...)

			c.Class("%s accepted=%v", form, err == nil)
			c.NonTrivial(form, signer.owner, signer.id, issuer, string(raw))
			c.Sample(map[string]any{"form": form, "kid": signer.id, "issuer": issuer, "accepted": err == nil})

			if err != nil {
				if issuer == signer.owner && !noIssuer && plainIss(form, raw, issuer) &&
					(form != "di" || strings.HasPrefix(signer.id, signer.owner+"#")) {
					rt.Fatalf("%s credential of issuer %s signed with its key %s refused: %v", form, issuer, signer.id, err)
				}

				return
			}

			got := cred.Contents().Issuer
			if got == nil || resolveModel(vms, got.ID, signer.id) == nil {
				rt.Fatalf("%s credential accepted with key %s, which its issuer %v does not list: %s", form, signer.id,
					vk.JS(got), raw)
			}
		})
}

// plainIss tells if the token's iss claim, when there is one, is the issuer.
func plainIss(form string, raw []byte, issuer string) bool {
	if form != "jwt" {
		return true
	}

	_, payload, _, err := vk.SplitJWS(string(raw))
	if err != nil {
		return false
	}

	var m map[string]any
	if json.Unmarshal(payload, &m) != nil {
		return false
	}

	return m["iss"] == nil || m["iss"] == issuer
}

func signCWT(rt *rapid.T, claims map[any]any, signer c05VM) []byte {
	prot := mustCBOR(map[any]any{1: int64(c05COSE[signer.key.Kind]), 4: []byte(signer.id)})
	s := sign1{tagged: true, protected: prot, unprotected: []byte{0xa0}, payload: mustCBOR(claims)}
	s.sig = mustSign(rt, signer.key, sigStructure(prot, s.payload))
	out, _ := s.encode()

	return out
}

func signLD(rt *rapid.T, doc map[string]any, signer c05VM) []byte {
	m := vk.CloneMap(doc)
	m["@context"] = append(m["@context"].([]any), "https://w3id.org/security/suites/jws-2020/v1") //nolint:forcetypeassert

	now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	err := lddocument.NewDocumentSigner(signer.key.Creator()).Sign(&lddocument.SigningContext{
		SignatureType: "JsonWebSignature2020", KeyType: signer.key.KMSType, SignatureRepresentation: proof.SignatureJWS,
		Created: &now, VerificationMethod: signer.id,
	}, m, ldOpts()...)
	if err != nil {
		rt.Fatal(err)
	}

	return vk.MustJSON(m)
}

func diVerifier(w *vk.World, loader ldLoader) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: loader}))
	if err != nil {
		panic(err)
	}

	return v
}

func TestC05_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		w := vk.NewWorld()
		w.AddDID("did:x:a", vk.VM{Fragment: "k", Key: vk.GetKey(vk.EdDSA, "did:x:a")})
		w.AddDID("did:x:b", vk.VM{Fragment: "k", Key: vk.GetKey(vk.EdDSA, "did:x:b")})

		kc := c()
		kc.NonTrivial("di issuer")
		kc.Sample("credential with issuer did:x:a and a Data Integrity proof by did:x:b")

		rapid.Check(t, func(rt *rapid.T) {
			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI, "https://w3id.org/security/data-integrity/v2"},
				"type":     []any{"VerifiableCredential"}, "issuer": "did:x:a",
				"issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": map[string]any{"id": "did:x:s"},
			}
			raw := signDI(rt, doc, c05VM{owner: "did:x:b", id: "did:x:b#k", key: vk.GetKey(vk.EdDSA, "did:x:b")}, w)

			if _, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithProofChecker(w.Checker()),
				verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader())))...); err == nil {
				rt.Fatal("a credential of did:x:a with a Data Integrity proof by did:x:b is accepted")
			}
		})
	})
}

// TestC05_History: one checker and one verifier live through key rotations; what counts is the document as it is now.
func TestC05_History(t *testing.T) {
	loader := vk.Loader()

	vk.Check(t, "a proof is checked both before and after the document it depends on was changed", 500, 12000,
		func(rt *rapid.T, c *vk.Case) {
			w := vk.NewWorld()
			chk, div := w.Checker(), diVerifier(w, loader)
			listed := map[string][]c05VM{}
			version := map[string]int{}

			type artifact struct {
				mode     string
				by       c05VM
				msg, sig []byte
				text     string
				checked  map[int]bool
			}

			var pool []*artifact

			change := func(owner string) {
				version[owner]++

				if listed[owner] = nil; vk.Coin(rt, "remove", 6) {
					w.Remove(owner)
					return
				}

				var list []vk.VM

				for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "keys"); i < n; i++ {
					vm := c05VM{owner: owner, id: fmt.Sprintf("%s#key-%d", owner, i), typ: "JsonWebKey2020", place: "ref",
						key: vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256), vk.Pick(rt, "label", "k1", "k2"))}
					def := vk.VM{Fragment: fmt.Sprintf("key-%d", i), Key: vm.key}

					if vk.Coin(rt, "agree", 6) {
						vm.place = "agree"
						def.Embedded, def.Rels = true, []did.VerificationRelationship{did.KeyAgreement}
					}

					listed[owner] = append(listed[owner], vm)
					list = append(list, def)
				}

				w.AddDID(owner, list...)
			}

			issue := func() {
				owner := vk.Pick(rt, "owner", "did:x:a", "did:x:b")
				if len(listed[owner]) == 0 {
					return
				}

				a := &artifact{mode: vk.Pick(rt, "mode", "jwt", "ld", "cwt", "di", "vcjwt"), checked: map[int]bool{},
					by: listed[owner][rapid.IntRange(0, len(listed[owner])-1).Draw(rt, "by")], msg: []byte(vk.Word().Draw(rt, "m"))}
				doc := map[string]any{
					"@context": []any{verifiable.V1ContextURI, "https://w3id.org/security/data-integrity/v2"},
					"type":     []any{"VerifiableCredential"}, "issuer": owner,
					"issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": map[string]any{"id": "did:x:s"},
				}

				switch a.mode {
				case "di":
					if a.by.place == "agree" {
						return
					}

					a.msg = signDI(rt, doc, a.by, w)
				case "vcjwt":
					doc["@context"] = []any{verifiable.V1ContextURI}
					a.text = vk.MakeJWS(map[string]any{"alg": string(a.by.key.Kind), "kid": a.by.id, "typ": "JWT"},
						vk.MustJSON(map[string]any{"vc": doc, "iss": owner}), a.by.key)
				default:
					a.sig = mustSign(rt, a.by.key, a.msg)
				}

				pool = append(pool, a)
			}

			check := func() {
				if len(pool) == 0 {
					return
				}

				a := pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "which")]
				vm := resolveModel(listed[a.by.owner], a.by.owner, a.by.id)
				want := vm != nil && vm.key == a.by.key

				var err error

				switch a.mode {
				case "jwt":
					err = chk.CheckJWTProof(jose.Headers{"alg": string(a.by.key.Kind), "kid": a.by.id}, a.by.owner, a.msg, a.sig)
				case "ld":
					err = chk.CheckLDProof(&proof.Proof{Type: "JsonWebSignature2020", VerificationMethod: a.by.id}, a.by.owner,
						a.msg, a.sig)
				case "cwt":
					err = chk.CheckCWTProof(checker.CheckCWTProofRequest{KeyID: a.by.id, Algo: c05COSE[a.by.key.Kind]},
						a.by.owner, a.msg, a.sig)
				case "di":
					_, err = verifiable.ParseCredential(a.msg, parseOpts(verifiable.WithProofChecker(chk),
						verifiable.WithDataIntegrityVerifier(div))...)
				case "vcjwt":
					_, err = verifiable.ParseCredential([]byte(a.text), parseOpts(verifiable.WithProofChecker(chk))...)
				}

				a.checked[version[a.by.owner]] = true

				c.Class("%s accept=%v changed=%v", a.mode, want, len(a.checked) > 1)

				if len(a.checked) > 1 {
					c.NonTrivial(a.mode, want, a.by.id, a.by.key.Kind, a.by.key.Label, len(a.checked), version)
				}

				if (err == nil) != want {
					rt.Fatalf("%s proof by %s (%s/%s): accepted %v, want %v (%v)\nthe document now lists %s", a.mode, a.by.id,
						a.by.key.Kind, a.by.key.Label, err == nil, want, err, showVMs(listed[a.by.owner]))
				}
			}

			change("did:x:a")
			change("did:x:b")

			var ops []string

			for i, n := 0, rapid.IntRange(4, 16).Draw(rt, "ops"); i < n; i++ {
				op := vk.Pick(rt, "op", "make", "check", "check", "change")
				ops = append(ops, op)

				switch op {
				case "make":
					issue()
				case "check":
					check()
				case "change":
					change(vk.Pick(rt, "of", "did:x:a", "did:x:b"))
				}
			}

			c.Sample(map[string]any{"ops": ops, "versions": version})
		})
}

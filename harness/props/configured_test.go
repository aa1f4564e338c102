package props

import (
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/jwt"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// drawKinds draws the kinds a checker is configured for, in any order, sometimes over several options.
func drawKinds(rt *rapid.T, label string, focus vk.Kind, from []vk.Kind) map[vk.Kind]bool {
	out := map[vk.Kind]bool{}

	for _, k := range from {
		if k == focus && vk.Coin(rt, label+" focus", 4) == false || k != focus && rapid.Bool().Draw(rt, label+string(k)) {
			out[k] = true
		}
	}

	return out
}

func shuffledKinds(rt *rapid.T, label string, set map[vk.Kind]bool) []vk.Kind {
	list := []vk.Kind{}

	for _, k := range append(append([]vk.Kind{}, vk.JWTKinds...), vk.BBS) {
		if set[k] {
			list = append(list, k)
		}
	}

	if len(list) < 2 {
		return list
	}

	return rapid.Permutation(list).Draw(rt, label)
}

func verifierOpts(rt *rapid.T, set map[vk.Kind]bool) []checker.Opt {
	var opts []checker.Opt

	for _, k := range shuffledKinds(rt, "verifier order", set) {
		opts = append(opts, checker.WithSignatureVerifiers(verifierFor(k)))
	}

	return opts
}

// TestC01_Configured: a checker set up for some algorithms accepts what the complete one accepts of these, and no more.
func TestC01_Configured(t *testing.T) {
	vk.Check(t, "a token is judged by checkers set up with a drawn set of algorithms and verifiers; non-trivial = the set is neither "+
		"empty nor complete; distinct by (algorithm, sets, key form, change)", 1500, 30000, func(rt *rapid.T, c *vk.Case) {
		kind := rapid.SampledFrom(vk.JWTKinds).Draw(rt, "kind")
		key, other := vk.GetKey(kind, "a"), vk.GetKey(kind, "b")
		w := vk.NewWorld()
		w.AddDID("did:x:abc", vk.VM{Fragment: "k", Key: key}, vk.VM{Fragment: "o", Key: other})

		algs, vers := drawKinds(rt, "alg", kind, vk.JWTKinds), drawKinds(rt, "verifier", kind, vk.JWTKinds)
		opts := verifierOpts(rt, vers)
		list := shuffledKinds(rt, "algorithm order", algs)

		if rapid.Bool().Draw(rt, "one option") {
			var all []proofdesc.JWTProofDescriptor
			for _, k := range list {
				all = append(all, vk.Descriptor(k))
			}

			opts = append([]checker.Opt{checker.WithJWTAlg(all...)}, opts...)
		} else {
			for _, k := range list {
				opts = append(opts, checker.WithJWTAlg(vk.Descriptor(k)))
			}
		}

		if vk.Coin(rt, "other families", 3) {
			// proofs of other families are no reason to accept tokens
			opts = append(opts, checker.WithCWTAlg(vk.AllDescriptors()...), checker.WithLDProofTypes(jsonwebsignature2020.New(), ed25519signature2018.New()))
		}

		payload := vk.MustJSON(map[string]any{"iss": "did:x:abc", "x": vk.Str().Draw(rt, "x")})
		hdr := map[string]any{"alg": string(kind), "kid": "did:x:abc#k"}
		signer := key
		want := algs[kind] && vers[kind]
		change := vk.Pick(rt, "change", "none", "none", "none", "signer", "alg", "no alg", "payload")

		switch change {
		case "signer":
			signer, want = other, false
		case "alg":
			// algorithms of one key type differ in the verifier they use
			k := rapid.SampledFrom(vk.JWTKinds).Draw(rt, "other alg")
			want = want && k == kind
			hdr["alg"] = string(k)
		case "no alg":
			delete(hdr, "alg")

			want = false
		}

		tok := vk.MakeJWS(hdr, payload, signer)

		if change == "payload" {
			parts := strings.Split(tok, ".")
			tok = parts[0] + "." + vk.B64(append([]byte(" "), payload...)) + "." + parts[2]
			want = false
		}

		_, _, err := jwt.ParseAndCheckProof(tok, checker.New(vermethod.NewVDRResolver(w), opts...), rapid.Bool().Draw(rt, "check issuer"))
		if (err == nil) != want {
			rt.Fatalf("%s token with change %q, checker for %v with verifiers %v: %v, expected acceptance %v", kind, change, algs, vers, err, want)
		}

		// a checker around one key, in the forms a verification method can have
		vm := &vermethod.VerificationMethod{Type: "JsonWebKey2020", JWK: key.JWK}
		form := "jwk"

		if kind == vk.EdDSA && rapid.Bool().Draw(rt, "bytes") {
			form = "Ed25519VerificationKey2018"
			vm = &vermethod.VerificationMethod{Type: form, Value: key.PubBytes}
		} else if vk.Coin(rt, "vm type unknown", 6) {
			form = vk.Pick(rt, "vm type", "JsonWebKey", "", "jsonwebkey2020", "Bls12381G2Key2020")
			vm, want = &vermethod.VerificationMethod{Type: form, JWK: key.JWK}, false
		}

		one := checker.NewEmbeddedVMProofChecker(vm, opts...)
		if form == "jwk" && rapid.Bool().Draw(rt, "by jwk") {
			one = checker.NewEmbeddedJWKProofChecker(vm.JWK, opts...)
		}

		if err := jwt.CheckProof(tok, one, nil, nil); (err == nil) != want {
			rt.Fatalf("%s token with change %q, checker of one key (%s) for %v with verifiers %v: %v, expected acceptance %v", kind, change, form, algs, vers, err, want)
		}

		c.Class("change=%s", change)
		c.Class("accepted=%v", want)

		if n := len(algs); n > 0 && n < len(vk.JWTKinds) {
			c.NonTrivial(kind, algs, vers, form, change)
		}

		c.Sample(map[string]any{"alg": kind, "algorithms": list, "key": form, "change": change, "accepted": want})
	})
}

// TestC02_Configured is the same for CWT.
func TestC02_Configured(t *testing.T) {
	vk.Check(t, "a signature is judged by a checker set up with a drawn set of algorithms and verifiers; non-trivial = the set is neither "+
		"empty nor complete; distinct by (algorithm, sets, change)", 1500, 30000, func(rt *rapid.T, c *vk.Case) {
		kind := rapid.SampledFrom(coseKinds).Draw(rt, "kind")
		key, other := vk.GetKey(kind, "a"), vk.GetKey(kind, "b")
		w := vk.NewWorld()
		w.AddDID("did:x:abc", vk.VM{Fragment: "k", Key: key})

		algs, vers := drawKinds(rt, "alg", kind, coseKinds), drawKinds(rt, "verifier", kind, coseKinds)
		opts := verifierOpts(rt, vers)

		for _, k := range shuffledKinds(rt, "algorithm order", algs) {
			opts = append(opts, checker.WithCWTAlg(vk.Descriptor(k)))
		}

		if vk.Coin(rt, "other families", 3) {
			opts = append(opts, checker.WithJWTAlg(vk.AllDescriptors()...))
		}

		msg := []byte(vk.Str().Draw(rt, "message"))
		issuer := ""
		req := checker.CheckCWTProofRequest{Algo: coseAlg[kind]}

		if (kind == vk.EdDSA || kind == vk.ES256 || kind == vk.ES384) && rapid.Bool().Draw(rt, "COSE_Key") {
			req.KeyMaterial = coseKeyHex(key)
		} else {
			req.KeyID, issuer = "did:x:abc#k", "did:x:abc"
		}

		want := algs[kind] && vers[kind]
		signer := key
		change := vk.Pick(rt, "change", "none", "none", "none", "signer", "alg", "no key")

		switch change {
		case "signer":
			signer, want = other, false
		case "alg":
			a := rapid.SampledFrom(allCOSE).Draw(rt, "other alg")
			want = want && a == req.Algo
			req.Algo = a
		case "no key":
			req.KeyID, req.KeyMaterial, want = "", "", false
		}

		sig, err := signer.Sign(msg)
		if err != nil {
			rt.Fatal(err)
		}

		if err := checker.New(vermethod.NewVDRResolver(w), opts...).CheckCWTProof(req, issuer, msg, sig); (err == nil) != want {
			rt.Fatalf("%s signature with change %q (%v), checker for %v with verifiers %v: %v, expected acceptance %v", kind, change, req, algs, vers, err, want)
		}

		c.Class("change=%s", change)
		c.Class("accepted=%v", want)

		if n := len(algs); n > 0 && n < len(coseKinds) {
			c.NonTrivial(kind, algs, vers, req.KeyID, change)
		}

		c.Sample(map[string]any{"alg": kind, "algorithms": algs, "change": change, "accepted": want})
	})
}

// TestC03_Configured is the same for linked data proofs.
func TestC03_Configured(t *testing.T) {
	descs := map[string]proofdesc.LDProofDescriptor{
		"Ed25519Signature2018": ed25519signature2018.New(), "Ed25519Signature2020": ed25519signature2020.New(),
		"JsonWebSignature2020": jsonwebsignature2020.New(), "EcdsaSecp256k1Signature2019": ecdsasecp256k1signature2019.New(),
		"BbsBlsSignature2020": bbsblssignature2020.New(),
	}

	vk.Check(t, "a proof is judged by a checker set up with a drawn set of suites and verifiers; non-trivial = the set is neither "+
		"empty nor complete; distinct by (suite, sets, change)", 400, 8000, func(rt *rapid.T, c *vk.Case) {
		suite := ldSuites[rapid.IntRange(0, len(ldSuites)-1).Draw(rt, "suite")]
		kind := vk.Pick(rt, "kind", suite.kinds...)
		key, other := vk.GetKey(kind, "a"), vk.GetKey(kind, "b")
		w := vk.NewWorld()
		w.AddDID("did:x:abc", vk.VM{Fragment: "k", Key: key, Bytes: kind == vk.BBS})

		types := map[string]bool{}
		vers := drawKinds(rt, "verifier", kind, append(append([]vk.Kind{}, vk.JWTKinds...), vk.BBS))
		opts := verifierOpts(rt, vers)
		typed := func(name string, d proofdesc.LDProofDescriptor) {
			types[name] = true

			opts = append(opts, checker.WithLDProofTypes(d))
		}

		for _, s := range ldSuites {
			if s.name == suite.name && vk.Coin(rt, "suite left out", 4) == false || s.name != suite.name && rapid.Bool().Draw(rt, s.name) {
				typed(s.name, descs[s.name])
			}
		}

		doc := map[string]any{"@context": []any{credCtx[2], vk.ExtContextURL, suite.ctx}, "id": "urn:x:1", "t1": vk.Word().Draw(rt, "t1")}
		signer, want := key, types[suite.name] && vers[kind]
		change := vk.Pick(rt, "change", "none", "none", "none", "signer", "document")

		if change == "signer" {
			signer, want = other, false
		}

		created := time.Unix(1700000000, 0).UTC()

		err := lddocument.NewDocumentSigner(signer.Creator()).Sign(&lddocument.SigningContext{
			SignatureType: suite.name, KeyType: key.KMSType, Created: &created, VerificationMethod: "did:x:abc#k",
			Purpose: "assertionMethod",
		}, doc, ldOpts()...)
		if err != nil {
			rt.Fatalf("signing with %s: %v", suite.name, err)
		}

		if change == "document" {
			doc["t1"], want = doc["t1"].(string)+"x", false
		}

		err = lddocument.NewDocumentVerifier(checker.New(vermethod.NewVDRResolver(w), opts...)).Verify(vk.MustJSON(doc), nil, ldOpts()...)
		if (err == nil) != want {
			rt.Fatalf("%s proof by %s with change %q, checker for %v with verifiers %v: %v, expected acceptance %v", suite.name, kind, change, types, vers, err, want)
		}

		c.Class("change=%s", change)
		c.Class("accepted=%v", want)

		if n := len(types); n > 0 && n < len(ldSuites) {
			c.NonTrivial(suite.name, kind, types, vers, change)
		}

		c.Sample(map[string]any{"suite": suite.name, "key": kind, "suites": types, "change": change, "accepted": want})
	})
}

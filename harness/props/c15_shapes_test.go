package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	didconfigverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// nest wraps a value n times.
func nest(kind string, v any, n int) any {
	for i := 0; i < n; i++ {
		if kind == "lists" || kind == "both" && i%2 == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"x": v}
		}
	}

	return v
}

// TestC15_Shapes reads documents of extreme shapes: deeply nested, long, or built to make a search explode.
func TestC15_Shapes(t *testing.T) { //nolint:gocyclo,maintidx
	vk.Enum(t, "every shape", func(t *testing.T, next func() *vk.Case) {
		key := vk.GetKey(vk.EdDSA, "c15")
		w := vk.NewWorld()
		p := addParty(w, issDID, key)
		e := newC15Env(w, p)
		size := 3000

		if vk.Thorough() {
			size = 9000
		}

		check := func(what string, input any, f func()) {
			c := next()
			c.Class("%s", what)
			c.NonTrivial(fmt.Sprintf("%s %.200q", what, showInput(input)))
			began := time.Now()
			survives(t, what, input, f)

			if d := time.Since(began); d > 2*time.Second {
				t.Logf("SLOW %v %s %.300q", d, what, showInput(input))
			}
		}

		cred := func(name string, v any) map[string]any {
			m := map[string]any{
				"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL}, "id": "urn:c", "type": []any{"VerifiableCredential"},
				"issuer": issDID, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:sss"},
			}
			if name != "" {
				m[name] = v
			}

			return m
		}

		proofDI := map[string]any{
			"type": "DataIntegrityProof", "cryptosuite": "eddsa-rdfc-2022", "created": "2021-01-02T03:04:05Z", "proofPurpose": "assertionMethod",
			"verificationMethod": p.kid, "proofValue": "z3u2en7t5LR2WtQH5PfFqMqwVHgeXouLzo6haApm8XHqvjxq",
		}
		proofLD := map[string]any{
			"type": "JsonWebSignature2020", "created": "2021-01-02T03:04:05Z", "proofPurpose": "assertionMethod", "verificationMethod": p.kid,
			"jws": "eyJhbGciOiJFZERTQSIsImI2NCI6ZmFsc2UsImNyaXQiOlsiYjY0Il19..HcUa0Qbt",
		}

		optSets := map[string][]verifiable.CredentialOpt{
			"bare":    {verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation()},
			"default": {verifiable.WithDisabledProofCheck()},
			"checked": {verifiable.WithProofChecker(w.Checker()), verifiable.WithDataIntegrityVerifier(e.di)},
			"strict":  {verifiable.WithDisabledProofCheck(), verifiable.WithStrictValidation()},
		}

		read := func(text []byte) {
			for _, o := range optSets {
				if c, err := verifiable.ParseCredential(text, parseOpts(o...)...); err == nil {
					_, _ = c.MarshalJSON()
					cl, _ := c.JWTClaims(false)
					_ = cl
					_, _ = c.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
					c2 := c.Clone()
					_, _ = c2.MarshalJSON()
					_, _ = c.MakeSDJWT(joseSigner(key, p.kid, ""), p.kid)
				}
			}
		}

		// nesting
		for _, kind := range []string{"lists", "objects", "both"} {
			for _, name := range []string{"@context", "type", "issuer", "credentialSubject", "credentialStatus", "credentialSchema", "evidence", "termsOfUse", "refreshService", "proof", "t0", "xcustom", "relatedResource", "id"} {
				doc := vk.MustJSON(cred(name, nest(kind, "x", size)))
				check("nested "+kind+" in "+name, doc, func() { read(doc) })
			}

			for _, pr := range []map[string]any{proofDI, proofLD} {
				d := cred("credentialSubject", nest(kind, "x", size))
				d["proof"] = pr
				doc := vk.MustJSON(d)
				check("nested "+kind+" under "+pr["type"].(string), doc, func() { read(doc) })
			}

			vc := nest(kind, "x", size)
			for _, payload := range []any{vc, map[string]any{"vc": vc}, map[string]any{"iss": vc, "vc": map[string]any{"credentialSubject": vc}}, map[string]any{"vp": vc}, map[string]any{"vc": map[string]any{}, "cnf": vc, "_sd": vc}} {
				tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": p.kid}, vk.MustJSON(payload), key)
				check("nested "+kind+" in a token", tok, func() {
					read([]byte(tok))
					_, _, _ = jwt.Parse(tok)
					_, _ = verifiable.ParsePresentation([]byte(tok), vpOpts(verifiable.WithPresProofChecker(w.Checker()))...)
					_, _ = holder.Parse(tok+"~", holder.WithSignatureVerifier(w.Checker()))
					_, _ = verifier.Parse(tok+"~", verifier.WithSignatureVerifier(w.Checker()))
				})
				tok = vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": p.kid, "jwk": vc, "x": vc}, []byte(`{"iss":"x"}`), key)
				check("nested "+kind+" in a header", tok, func() {
					_, _, _ = jwt.Parse(tok)
					_, _, _ = jwt.ParseAndCheckProof(tok, w.Checker(), true)
				})
			}

			// presentations within credentials within presentations
			for _, name := range []string{"@context", "type", "holder", "verifiableCredential", "proof", "presentation_submission", "id"} {
				m := map[string]any{"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiablePresentation"}, "holder": issDID}
				m[name] = nest(kind, "x", size)
				doc := vk.MustJSON(m)
				check("nested "+kind+" in presentation "+name, doc, func() {
					for _, o := range [][]verifiable.PresentationOpt{{verifiable.WithPresDisabledProofCheck()}, {verifiable.WithPresProofChecker(w.Checker())}} {
						if vp, err := verifiable.ParsePresentation(doc, vpOpts(o...)...); err == nil {
							_, _ = vp.MarshalJSON()
							_, _ = vp.Clone().MarshalJSON()
							_, _ = vp.MarshalCBOR()
						}
					}
				})
			}

			for _, name := range []string{"linked_dids", "@context"} {
				m := map[string]any{"@context": "https://identity.foundation/.well-known/did-configuration/v1", "linked_dids": []any{cred("", nil)}}
				m[name] = nest(kind, "x", size)
				doc := vk.MustJSON(m)
				check("nested "+kind+" in a configuration's "+name, doc, func() {
					_ = didconfigverifier.VerifyDIDAndDomain(doc, issDID, "https://a.example", didconfigverifier.WithJSONLDDocumentLoader(vk.Loader()), didconfigverifier.WithVDRegistry(w))
				})
			}
		}

		// issuing from what is nested
		for _, kind := range []string{"lists", "objects", "both"} {
			claims := map[string]any{"a": nest(kind, "x", size/10)}

			for _, v := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
				for _, structured := range []bool{false, true} {
					check(fmt.Sprintf("issuing nested %s %v %v", kind, v, structured), claims, func() {
						tok, err := issuer.New("did:ex:i", claims, nil, joseSigner(key, p.kid, ""), issuer.WithSDJWTVersion(v), issuer.WithStructuredClaims(structured))
						if err != nil {
							return
						}

						text, err := tok.Serialize(false)
						if err != nil {
							return
						}

						_, _ = holder.Parse(text, holder.WithSignatureVerifier(w.Checker()))
						_, _ = verifier.Parse(text+"~", verifier.WithSignatureVerifier(w.Checker()))
					})
				}
			}
		}

		// disclosures hidden in disclosures
		sd := func(payload map[string]any, discs []string) {
			tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": p.kid}, vk.MustJSON(payload), key)
			text := tok + "~" + strings.Join(discs, "~") + "~"
			_, _ = holder.Parse(strings.TrimSuffix(text, "~"), holder.WithSignatureVerifier(w.Checker()))
			_, _ = holder.CreatePresentation(strings.TrimSuffix(text, "~"), []string{"x"})
			_, _ = verifier.Parse(text, verifier.WithSignatureVerifier(w.Checker()))

			if c, err := verifiable.ParseCredential([]byte(text), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...); err == nil {
				_, _ = c.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
				_, _ = c.MarshalWithDisclosure(verifiable.DiscloseAll())
				_, _ = c.MarshalJSON()
			}
		}

		enc := func(v any) string { return base64.RawURLEncoding.EncodeToString(vk.MustJSON(v)) }

		for _, form := range []string{"members", "elements", "both"} {
			var discs []string

			var inner any = "x"

			for i := 0; i < size/5; i++ {
				d := enc([]any{fmt.Sprintf("salt%d", i), "x", inner})
				dig := refDigest(crypto.SHA256, d)
				next := any(map[string]any{"_sd": []any{dig}})

				if form == "elements" || form == "both" && i%2 == 0 {
					d = enc([]any{fmt.Sprintf("salt%d", i), inner})
					next = []any{map[string]any{"...": refDigest(crypto.SHA256, d)}}
				}

				discs, inner = append(discs, d), next
			}

			payload := map[string]any{"iss": "did:ex:i", "_sd_alg": "sha-256", "x": inner, "vc": map[string]any{"credentialSubject": inner}}
			check("disclosures within disclosures: "+form, discs[len(discs)-1], func() { sd(payload, discs) })

			delete(payload, "vc")
			check("disclosures within disclosures: "+form, discs[len(discs)-1], func() { sd(payload, discs) })
			delete(payload, "x")
			payload["vc"] = map[string]any{"credentialSubject": inner, "_sd_alg": "sha-256"}
			check("disclosures within disclosures: "+form, discs[len(discs)-1], func() { sd(payload, discs) })
		}

		{
			// each disclosure names the next one twice
			var discs []string

			var inner any = "x"

			for i := 0; i < 60; i++ {
				d := enc([]any{fmt.Sprintf("salt%d", i), inner})
				dig := refDigest(crypto.SHA256, d)
				discs, inner = append(discs, d), []any{map[string]any{"...": dig}, map[string]any{"...": dig}}
			}

			payload := map[string]any{"iss": "did:ex:i", "_sd_alg": "sha-256", "x": inner}
			check("doubling disclosures", discs[0], func() { sd(payload, discs) })
			delete(payload, "x")
			payload["vc"] = map[string]any{"credentialSubject": map[string]any{"a": inner}, "_sd_alg": "sha-256"}
			check("doubling disclosures", discs[0], func() { sd(payload, discs) })

			discs = nil

			var digs []any

			for i := 0; i < size/5; i++ {
				d := enc([]any{fmt.Sprintf("salt%d", i), fmt.Sprintf("n%d", i), i})
				discs, digs = append(discs, d), append(digs, refDigest(crypto.SHA256, d))
			}

			payload = map[string]any{"iss": "did:ex:i", "_sd_alg": "sha-256", "_sd": digs, "vc": map[string]any{"credentialSubject": map[string]any{"_sd": digs}}}
			check("many disclosures", discs[0], func() { sd(payload, discs) })
			payload["_sd"] = []any{}
			check("many disclosures", discs[0], func() { sd(payload, discs) })
		}

		// definitions
		define := func(what string, def map[string]any, creds ...map[string]any) {
			text := vk.MustJSON(def)

			check(what, text, func() {
				var pd presexch.PresentationDefinition
				if json.Unmarshal(text, &pd) != nil {
					return
				}

				_ = pd.ValidateSchema()

				var wallet []*verifiable.Credential

				for _, m := range creds {
					if c, err := verifiable.ParseCredential(vk.MustJSON(m), peCredOpts()...); err == nil {
						wallet = append(wallet, c)
					}
				}

				_, _ = pd.MatchSubmissionRequirement(wallet, vk.Loader())

				vp, err := pd.CreateVP(wallet, vk.Loader())
				if err != nil {
					_, _, _ = pd.CreateVPArray(wallet, vk.Loader())

					return
				}

				_, _ = pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...))
			})
		}

		field := func(filter map[string]any, paths ...any) map[string]any {
			f := map[string]any{"path": paths}
			if filter != nil {
				f["filter"] = filter
			}

			return map[string]any{"fields": []any{f}}
		}
		never := field(map[string]any{"type": "string", "const": "nothing"}, "$.issuer")
		any1 := field(nil, "$.issuer")
		reqs := map[string][]any{
			"none":  nil,
			"all":   {map[string]any{"rule": "all", "from": "A"}},
			"one":   {map[string]any{"rule": "pick", "from": "A", "count": 1}},
			"half":  {map[string]any{"rule": "pick", "from": "A", "count": 17}},
			"min":   {map[string]any{"rule": "pick", "from": "A", "min": 16}},
			"max":   {map[string]any{"rule": "pick", "from": "A", "max": 16}},
			"pairs": {map[string]any{"rule": "pick", "from": "A", "count": 1}, map[string]any{"rule": "pick", "from": "B", "min": 15, "max": 16}},
			"either": {map[string]any{"rule": "pick", "count": 1, "from_nested": []any{
				map[string]any{"rule": "pick", "from": "A", "min": 16}, map[string]any{"rule": "all", "from": "B"},
			}}},
		}

		for rname, rs := range reqs {
			for _, fits := range []string{"none", "first", "last", "odd", "all"} {
				var ds []any

				for i := 0; i < 34; i++ {
					con := never
					if fits == "all" || fits == "first" && i == 0 || fits == "last" && i == 33 || fits == "odd" && i%2 == 1 {
						con = any1
					}

					group := []any{"A"}
					if i%2 == 0 {
						group = append(group, "B")
					}

					d := map[string]any{"id": fmt.Sprintf("d%d", i), "constraints": con, "schema": []any{map[string]any{"uri": verifiable.V1ContextURI + "#VerifiableCredential"}}}
					if rs != nil {
						d["group"] = group
					}

					ds = append(ds, d)
				}

				def := map[string]any{"id": "def", "input_descriptors": ds}
				if rs != nil {
					def["submission_requirements"] = rs
				}

				define(fmt.Sprintf("34 descriptors, %s required, %s satisfiable", rname, fits), def, cred("", nil))

				for _, d := range ds {
					delete(d.(map[string]any), "schema")
				}

				define(fmt.Sprintf("34 descriptors, %s required, %s satisfiable, second form", rname, fits), def, cred("", nil))
			}
		}

		{
			one := []any{map[string]any{"id": "d", "group": []any{"A"}, "constraints": any1, "schema": []any{map[string]any{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential"}}}}

			for _, rule := range []string{"all", "pick"} {
				var req any = map[string]any{"rule": rule, "from": "A"}
				for i := 0; i < size/10; i++ {
					req = map[string]any{"rule": rule, "count": 1, "from_nested": []any{req}}
				}

				define("deep requirements", map[string]any{"id": "def", "input_descriptors": one, "submission_requirements": []any{req}}, cred("", nil))
			}

			deep := cred("credentialSubject", nest("both", "x", size/20))

			for _, path := range []string{
				"$..x", "$..*", "$.credentialSubject..x", "$" + strings.Repeat(".x", size), "$" + strings.Repeat("[0]", size), "$" + strings.Repeat("[", size), "$" + strings.Repeat("(", size),
				"$[?(" + strings.Repeat("(", size) + "]", "$" + strings.Repeat("[*]", 50), "$.credentialSubject" + strings.Repeat(".*", 60), "$[" + strings.Repeat("0,", size) + "0]", "$[0:999999999999]", "$[::0]", "$[::-1]", "$[-1]", "$['']", "$[\"\"]", "$[\"a", "$['a", "@", "$$", "", "$.", "$..", "$[", "$[]",
				"$..x..x",
			} {
				for _, filter := range []map[string]any{nil, {"type": "string"}, {"type": "string", "pattern": strings.Repeat("(a*)*", 50)}, {"type": "string", "pattern": "(((((a{100}){100}){100}"}} {
					con := field(filter, path)

					for _, limit := range []string{"", "required"} {
						if limit != "" {
							con["limit_disclosure"] = limit
						}

						define(fmt.Sprintf("path %.30s", path), map[string]any{"id": "def", "input_descriptors": []any{map[string]any{
							"id": "d", "constraints": con,
						}}}, cred("", nil), deep)
					}
				}
			}

			// submissions
			var desc any = map[string]any{"id": "d", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}
			for i := 0; i < size/3; i++ {
				desc = map[string]any{"id": "d", "format": "ldp_vp", "path": "$", "path_nested": desc}
			}

			for _, dm := range []any{[]any{desc}, []any{nil}, []any{map[string]any{"id": "d", "path": strings.Repeat("$[0]", size)}}, nest("lists", "x", size)} {
				sub := map[string]any{"id": "s", "definition_id": "def", "descriptor_map": dm}
				vpDoc := vk.MustJSON(map[string]any{
					"@context": []any{verifiable.V1ContextURI, presexch.PresentationSubmissionJSONLDContextIRI}, "type": []any{"VerifiablePresentation", presexch.PresentationSubmissionJSONLDType},
					"presentation_submission": sub, "verifiableCredential": []any{cred("", nil)},
				})
				text := vk.MustJSON(sub)

				check("odd submissions", text, func() {
					pd := &presexch.PresentationDefinition{}
					if json.Unmarshal(vk.MustJSON(map[string]any{"id": "def", "input_descriptors": one}), pd) != nil {
						t.Fatal("VERIF-HARNESS-ERROR")
					}

					vp, err := verifiable.ParsePresentation(vpDoc, vpOpts(verifiable.WithPresDisabledProofCheck())...)
					if err != nil {
						t.Fatalf("VERIF-HARNESS-ERROR %v", err)
					}

					typed := &presexch.PresentationSubmission{}
					if json.Unmarshal(text, typed) == nil {
						_, _ = pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithMergedSubmission(typed), presexch.WithDisableSchemaValidation())
					}

					_, _ = pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithMergedSubmissionMap(sub), presexch.WithDisableSchemaValidation())
					_, _ = pd.Match([]*verifiable.Presentation{vp, vp}, vk.Loader(), presexch.WithMergedSubmissionMap(sub), presexch.WithDisableSchemaValidation())
					_, _ = pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithDisableSchemaValidation())
				})
			}

			twins := append([]any{}, one[0], one[0])
			define("descriptors sharing an id", map[string]any{"id": "def", "input_descriptors": twins}, cred("", nil))
			define("descriptors sharing an id", map[string]any{"id": "def", "input_descriptors": twins, "submission_requirements": []any{map[string]any{"rule": "all", "from": "A"}}}, cred("", nil))
		}

		// linkage credentials lacking members
		for _, name := range []string{"issuer", "credentialSubject", "issuanceDate", "expirationDate", "@context", "type", "id"} {
			for _, v := range []any{nil, "", []any{}, map[string]any{}, 1} {
				m := cred("expirationDate", "2099-01-01T00:00:00Z")
				m["@context"] = []any{verifiable.V1ContextURI, "https://identity.foundation/.well-known/did-configuration/v1"}
				m["type"] = []any{"VerifiableCredential", "DomainLinkageCredential"}
				m["credentialSubject"] = map[string]any{"id": issDID, "origin": "https://a.example"}

				if m[name] = v; v == nil {
					delete(m, name)
				}

				tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "kid": p.kid}, vk.MustJSON(map[string]any{"iss": issDID, "sub": issDID, "vc": m}), key)
				tok2 := vk.MakeJWS(map[string]any{"alg": "EdDSA", "kid": p.kid}, vk.MustJSON(map[string]any{"vc": m}), key)
				doc := vk.MustJSON(map[string]any{"@context": "https://identity.foundation/.well-known/did-configuration/v1", "linked_dids": []any{m, tok, tok2}})

				check("linkage credential lacking "+name, doc, func() {
					_ = didconfigverifier.VerifyDIDAndDomain(doc, issDID, "https://a.example", didconfigverifier.WithJSONLDDocumentLoader(vk.Loader()), didconfigverifier.WithVDRegistry(w))
				})
			}
		}

	})
}

package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"
	"time"

	gojose "github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/proof"
	util "github.com/trustbloc/did-go/doc/util/time"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	didconfigclient "github.com/trustbloc/vc-go/didconfig/client"
	didconfigverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	jsonutil "github.com/trustbloc/vc-go/util/json"
	"github.com/trustbloc/vc-go/util/maphelpers"
	vctime "github.com/trustbloc/vc-go/util/time"
	"github.com/trustbloc/vc-go/verifiable"
	vccwt "github.com/trustbloc/vc-go/verifiable/cwt"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

var c15Std = base64.StdEncoding

// c15Env is what readers of hostile documents have.
type c15Env struct {
	w     *vk.World
	p     party
	di    *dataintegrity.Verifier
	sign  *dataintegrity.Signer
	names []string
	heavy bool // also what takes long
	web   http.RoundTripper
}

func newC15Env(w *vk.World, p party) *c15Env {
	return &c15Env{w: w, p: p, di: diVerifier(w, vk.Loader()), sign: diSigner(w, p.key), names: []string{"id", "t0", ""}, web: deadWeb("{}")}
}

// deadWeb answers every request with one text.
type deadWeb string

func (d deadWeb) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(string(d))), Request: r}, nil
}

func (d deadWeb) Do(r *http.Request) (*http.Response, error) { return d.RoundTrip(r) }

func (e *c15Env) schemas() *verifiable.CredentialSchemaLoader {
	return verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: e.web}).Build()
}

// options lists ways of reading a credential.
func (e *c15Env) options(rt *rapid.T) ([]verifiable.CredentialOpt, string) {
	sets := map[string][]verifiable.CredentialOpt{
		"unchecked":    {verifiable.WithDisabledProofCheck()},
		"bare":         {verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation()},
		"checked":      {verifiable.WithProofChecker(e.w.Checker()), verifiable.WithDataIntegrityVerifier(e.di)},
		"checked only": {verifiable.WithProofChecker(e.w.Checker()), verifiable.WithDataIntegrityVerifier(e.di), verifiable.WithCredDisableValidation()},
		"strict":       {verifiable.WithDisabledProofCheck(), verifiable.WithStrictValidation(), verifiable.WithCredentialSchemaLoader(e.schemas())},
		"linked data":  {verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDValidation(), verifiable.WithNoCustomSchemaCheck()},
		"types":        {verifiable.WithDisabledProofCheck(), verifiable.WithStrictValidation(), verifiable.WithEnabledJSONLDTypesCheck(), verifiable.WithJSONLDIncludeDetailedStructureDiffOnError()},
		"base":         {verifiable.WithDisabledProofCheck(), verifiable.WithBaseContextValidation(verifiable.V1ContextURI)},
		"extended":     {verifiable.WithDisabledProofCheck(), verifiable.WithBaseContextExtendedValidation(verifiable.V2ContextURI, []string{vk.ExtContextURL}, []string{"T0"})},
		"schema":       {verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(e.schemas())},
		"nothing":      {},
	}
	k := vk.Pick(rt, "options", "unchecked", "unchecked", "bare", "bare", "checked", "checked", "checked only", "strict", "linked data", "types", "base", "extended", "schema", "nothing")

	return parseOpts(sets[k]...), k
}

// inspect does everything there is to do with a credential that was read.
func (e *c15Env) inspect(c *verifiable.Credential) { //nolint:funlen
	_, _ = c.MarshalJSON()
	_ = c.ToRawJSON()
	cc := c.Contents()
	_ = contentsView(cc)
	_ = c.Proofs()
	_ = c.JWTHeaders()
	_ = c.CustomField("t0")
	_, _ = c.IsJWT(), c.IsCWT()
	_, _ = c.ToJWTString()
	_, _ = c.ToUniversalForm()
	_, _ = c.MarshalAsJSONLD()
	_, _ = c.MarshalAsCWTLD()
	_, _ = c.MarshalAsCWTLDHex()
	_ = c.ToRawClaimsMap()
	ds := c.SDJWTDisclosures()
	_, _ = c.JWTClaims(true)

	if cl, err := c.JWTClaims(false); err == nil && cl != nil {
		_, _ = cl.ToSDJWTV5CredentialPayload()
		_, _ = cl.MarshalUnsecuredJWT()
		_, _ = cl.MarshalJWSString(jwsAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid)
	}

	_, _ = c.CWTClaims()
	_, _ = c.CreateUnsecuredJWTVC(true)
	_, _ = c.CreateUnsecuredJWTVC(false)
	_, _ = c.CreateSignedJWTVC(true, jwsAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid)

	if x, err := c.CreateSignedCOSEVC(coseAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid); err == nil {
		_, _ = x.MarshalJSON()
		_ = x.CheckProof(parseOpts(verifiable.WithProofChecker(e.w.Checker()))...)
	}

	signer := joseSigner(e.p.key, e.p.kid, "")
	_, _ = c.MarshalWithDisclosure(verifiable.DiscloseAll())
	_, _ = c.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureSigner(signer, e.p.kid))
	_, _ = c.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(e.names), verifiable.DisclosureSigner(signer, e.p.kid), verifiable.DisclosureHolderBinding(&holder.BindingInfo{
		Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: signer,
	}))
	_, _ = c.MarshalWithDisclosure(verifiable.DiscloseGivenRequired(e.names))

	for _, v := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
		if tok, err := c.MakeSDJWT(signer, e.p.kid, verifiable.MakeSDJWTWithVersion(v), verifiable.MakeSDJWTWithHash(crypto.SHA384),
			verifiable.MakeSDJWTWithRecursiveClaimsObjects(e.names), verifiable.MakeSDJWTWithAlwaysIncludeObjects(e.names)); err == nil {
			_, _ = verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithProofChecker(e.w.Checker()))...)
		}
	}

	if x, err := c.CreateDisplayCredential(verifiable.DisplayAllDisclosures()); err == nil {
		_, _ = x.MarshalJSON()
	}

	_, _ = c.CreateDisplayCredential(verifiable.DisplayGivenDisclosures(e.names))
	_, _ = c.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
	_, _ = c.CreateDisplayCredentialMap(verifiable.DisplayGivenDisclosures(e.names))

	x := c.Clone()
	_ = x.SetSDJWTDisclosures(ds)
	x.SetCustomField("xcustom", nil)
	when, _ := util.ParseTimeWrapper("2021-02-03T04:05:06Z")
	_, _ = x.WithModifiedID("urn:x").WithModifiedIssued(when).WithModifiedExpired(when).WithModifiedIssuer(cc.Issuer).WithModifiedSubject(cc.Subject).
		WithModifiedStatus(cc.Status...).WithModifiedRefreshService(cc.RefreshService).WithModifiedContext(cc.Context).MarshalJSON()
	_, _ = verifiable.SubjectID(cc.Subject)
	_ = verifiable.SerializeSubject(cc.Subject)
	_, _ = verifiable.CreateCredential(cc, nil)
	_, _ = verifiable.CreateCredentialWithProofs(cc, verifiable.CustomFields{"x": 1}, c.Proofs())

	for _, base := range []string{"", verifiable.V1ContextURI, verifiable.V2ContextURI} {
		opts := []verifiable.CreatePresentationOpt{verifiable.WithCredentials(c)}
		if base != "" {
			opts = append(opts, verifiable.WithBaseContext(base))
		}

		if vp, err := verifiable.NewPresentation(opts...); err == nil {
			e.inspectVP(vp, false)
		}
	}

	_ = e.statusClient().VerifyStatus(c)
	_ = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(e.web.(deadWeb))).Validate([]*verifiable.Credential{c}) //nolint:forcetypeassert

	if e.heavy {
		_ = c.ValidateCredential(parseOpts(verifiable.WithCredentialSchemaLoader(e.schemas()), verifiable.WithStrictValidation())...)
		_ = c.CheckProof(parseOpts(verifiable.WithProofChecker(e.w.Checker()), verifiable.WithDataIntegrityVerifier(e.di))...)

		now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		lc := &verifiable.LinkedDataProofContext{
			SignatureType: "JsonWebSignature2020", SignatureRepresentation: verifiable.SignatureJWS, KeyType: e.p.key.KMSType,
			ProofCreator: e.p.key.Creator(), VerificationMethod: e.p.kid, Created: &now,
		}
		dc := &verifiable.DataIntegrityProofContext{SigningKeyID: e.p.kid, ProofPurpose: "assertionMethod", CryptoSuite: "eddsa-rdfc-2022", Created: &now}

		for _, f := range []func(x *verifiable.Credential) error{
			func(x *verifiable.Credential) error { return x.AddLinkedDataProof(lc, ldOpts()...) },
			func(x *verifiable.Credential) error { return x.AddDataIntegrityProof(dc, e.sign) },
		} {
			x := c.Clone()
			if f(x) == nil {
				_, _ = x.MarshalJSON()
				_ = x.CheckProof(parseOpts(verifiable.WithProofChecker(e.w.Checker()), verifiable.WithDataIntegrityVerifier(e.di))...)
			}
		}
	}
}

func (e *c15Env) statusClient() *status.Client {
	return &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: e.web}, e.w, "")}
}

// inspectVP does everything there is to do with a presentation.
func (e *c15Env) inspectVP(vp *verifiable.Presentation, deep bool) {
	_, _ = vp.MarshalJSON()
	_, _ = vp.MarshalCBOR()
	_, _ = vp.MarshalledCredentials()
	_, _ = vp.IsJWT(), vp.IsCWT()

	if cl, err := vp.JWTClaims([]string{"a"}, true); err == nil && cl != nil {
		_, _ = cl.MarshalUnsecuredJWT()
		_, _ = cl.MarshalJWS(jwsAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid)
	}

	_, _ = vp.JWTClaims(nil, false)
	_, _ = vp.CWTClaims([]string{"a"}, true)
	_, _ = vp.CWTClaims(nil, false)

	if x, err := vp.CreateJWTVP([]string{"a"}, jwsAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid, true); err == nil {
		_, _ = x.MarshalJSON()
	}

	if x, err := vp.CreateCWTVP([]string{"a"}, coseAlg[e.p.key.Kind], e.p.key.Creator(), e.p.kid, false); err == nil {
		_, _ = x.MarshalJSON()
		_, _ = x.MarshalCBOR()
	}

	_, _ = vp.Clone().MarshalJSON()

	if deep {
		for _, c := range vp.Credentials() {
			if c != nil {
				e.inspect(c)
			}
		}
	}
}

// TestC15_Credentials reads changed credentials in every form and does everything with those accepted.
func TestC15_Credentials(t *testing.T) {
	vk.Check(t, "something was changed inside", 2500, 60000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c15"))
		e := newC15Env(w, p)
		e.heavy = vk.Coin(rt, "heavy", 5)
		vc := drawVPCred(rt, w, p, credGen{Valid: true, NoSchema: !vk.Coin(rt, "schema", 4)}, vk.Pick(rt, "form", "plain", "plain", "ldp", "di", "jwt", "jwt", "cwt", "sd", "sd"))
		raw := string(vc.raw)

		if vc.form == "cwt" {
			raw = string(vc.cred.CWTEnvelope.Sign1MessageRaw)
			if b := vc.cred.CWTEnvelope.Sign1MessageRaw; rapid.Bool().Draw(rt, "hex") {
				raw = fmt.Sprintf("%x", b)
			} else {
				raw = string(forgeCOSE(rt, b, p.key))
			}
		}

		if vc.form != "cwt" && vk.Coin(rt, "enveloped", 6) {
			if u, err := vc.cred.ToUniversalForm(); err == nil {
				raw = string(vk.MustJSON(u))
			}
		}

		text := raw

		if vc.form != "cwt" || strings.HasPrefix(raw, "d2") {
			text = forge(rt, raw, p.key, p.kid)
		}

		if vk.Coin(rt, "raw bytes", 15) {
			text = string(mangleBytes(rt, []byte(raw)))
		}

		if vk.Coin(rt, "page", 4) {
			e.web = deadWeb(vk.Pick(rt, "answer", "", "null", "[]", "{}", `{"type":1}`, `{"$ref":"#"}`, `{"properties":{"credentialSubject":{"$ref":"#/nope"}}}`, `{"$schema":1,"type":"object"}`, `{"pattern":"("}`, text))
		}

		opts, name := e.options(rt)
		ok := false

		survives(rt, "reading and using a credential ("+name+")", text, func() {
			got, err := verifiable.ParseCredential([]byte(text), opts...)
			if err == nil {
				ok = true
				e.inspect(got)
			}

			var m map[string]any
			if json.Unmarshal([]byte(text), &m) == nil {
				if got, err := verifiable.ParseCredentialJSON(m, opts...); err == nil {
					_, _ = got.MarshalJSON()
				}
			}

			if strings.Count(text, ".") == 2 {
				_, _ = verifiable.JWTVCToJSON([]byte(text))
			}
		})

		c.Class("%s accepted %v", vc.form, ok)
		c.Class("%s", name)

		if text != raw {
			c.NonTrivial(text)
		}

		c.Sample(text)
	})
}

// TestC15_Presentations does the same with presentations.
func TestC15_Presentations(t *testing.T) {
	vk.Check(t, "something was changed inside", 900, 30000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c15"))
		e := newC15Env(w, p)

		var creds []*verifiable.Credential

		v := rapid.IntRange(1, 2).Draw(rt, "version")

		for i := rapid.IntRange(0, 2).Draw(rt, "credentials"); i > 0; i-- {
			creds = append(creds, drawVPCred(rt, w, p, credGen{Valid: true, NoSchema: true, Version: v}, vk.Pick(rt, "form", "plain", "ldp", "jwt", "cwt", "sd")).cred)
		}

		opts := []verifiable.CreatePresentationOpt{verifiable.WithCredentials(creds...)}
		if v == 2 {
			opts = append(opts, verifiable.WithBaseContext(verifiable.V2ContextURI))
		}

		vp, err := verifiable.NewPresentation(opts...)
		if err != nil {
			rt.Fatal(err)
		}

		vp.Holder = p.did

		form := vk.Pick(rt, "VP form", "json", "json", "jwt", "cwt", "unsecured")

		switch form {
		case "jwt":
			vp, err = vp.CreateJWTVP([]string{"a"}, jwsAlg[p.key.Kind], p.key.Creator(), p.kid, rapid.Bool().Draw(rt, "minimize"))
		case "cwt":
			vp, err = vp.CreateCWTVP([]string{"a"}, coseAlg[p.key.Kind], p.key.Creator(), p.kid, rapid.Bool().Draw(rt, "minimize"))
		}

		if err != nil {
			rt.Fatal(err)
		}

		var raw []byte

		switch form {
		case "unsecured":
			cl, err := vp.JWTClaims(nil, true)
			if err != nil {
				rt.Fatal(err)
			}

			s, err := cl.MarshalUnsecuredJWT()
			if err != nil {
				rt.Fatal(err)
			}

			raw = []byte(s)
		case "cwt":
			if raw, err = vp.MarshalCBOR(); err != nil {
				rt.Fatal(err)
			}
		default:
			if raw, err = vp.MarshalJSON(); err != nil {
				rt.Fatal(err)
			}
		}

		var text string
		if form == "cwt" {
			text = string(forgeCOSE(rt, raw, p.key))
			if rapid.Bool().Draw(rt, "hex") {
				text = fmt.Sprintf("%x", text)
			}
		} else {
			text = forge(rt, string(raw), p.key, p.kid)
		}

		o := map[string][]verifiable.PresentationOpt{
			"unchecked": {verifiable.WithPresDisabledProofCheck()},
			"lenient":   {verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks()},
			"checked":   {verifiable.WithPresProofChecker(w.Checker()), verifiable.WithPresDataIntegrityVerifier(e.di), verifiable.WithPresHolderCheck(true)},
			"strict":    {verifiable.WithPresProofChecker(w.Checker()), verifiable.WithPresStrictValidation()},
			"resources": {verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresRelatedResourceCheck(false)},
			"nothing":   {},
		}
		name := vk.Pick(rt, "options", "unchecked", "lenient", "lenient", "checked", "checked", "strict", "resources", "nothing")
		ok := false

		survives(rt, "reading and using a presentation ("+name+")", text, func() {
			got, err := verifiable.ParsePresentation([]byte(text), vpOpts(o[name]...)...)
			if err == nil {
				ok = true
				e.inspectVP(got, true)
			}
		})

		c.Class("%s accepted %v", form, ok)
		c.Class("%s", name)
		c.NonTrivial(text)
		c.Sample(text)
	})
}

// TestC15_Tokens parses and checks changed JWTs, CWTs and unsecured tokens.
func TestC15_Tokens(t *testing.T) {
	vk.Check(t, "every case", 6000, 150000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom([]vk.Kind{vk.EdDSA, vk.ES256, vk.ES384}).Draw(rt, "kind")
		p := addParty(w, issDID, vk.GetKey(kind, "c15"))
		ch := w.Checker()
		claims := map[string]any{"iss": p.did, "sub": "s", "aud": "a", "exp": 4e9, "nbf": 1, "iat": 1, "jti": "j", "vc": map[string]any{"id": "x"}, "cnf": map[string]any{"jwk": map[string]any{"kty": "OKP"}}}

		form := vk.Pick(rt, "form", "jwt", "jwt", "cwt", "bytes")
		text := ""

		switch form {
		case "jwt":
			text = forgeJWS(rt, vk.MakeJWS(map[string]any{"alg": string(kind), "kid": p.kid, "typ": "JWT"}, vk.MustJSON(claims), p.key), p.key)
		case "cwt":
			prot := mustCBOR(map[any]any{1: int64(c05COSE[kind]), 4: []byte(p.kid), "COSE_Key": coseKeyHex(p.key)})
			s := sign1{tagged: true, protected: prot, unprotected: []byte{0xa0}, payload: mustCBOR(map[any]any{1: p.did, 6: 17, 7: []byte("x"), "vc": map[any]any{"id": "x"}})}
			s.sig = mustSign(rt, p.key, sigStructure(prot, s.payload))
			raw, _ := s.encode()
			text = string(forgeCOSE(rt, raw, p.key))
		default:
			text = string(rapid.SliceOf(rapid.Byte()).Draw(rt, "bytes"))
			if rapid.Bool().Draw(rt, "texts") {
				text = vk.Pick(rt, "a", hostileTexts...) + vk.Pick(rt, "sep", ".", "~", "") + vk.Pick(rt, "b", hostileTexts...) + vk.Pick(rt, "sep", ".", "~", "") + vk.Pick(rt, "c", hostileTexts...)
			}
		}

		iss := p.did
		ok := false

		survives(rt, "parsing a token", text, func() {
			_, _ = jwt.IsJWS(text), jwt.IsJWTUnsecured(text)

			for _, o := range [][]jwt.ParseOpt{nil, {jwt.WithIgnoreClaimsMapDecoding(true)}, {jwt.WithJWTDetachedPayload([]byte("{}"))}, {jwt.DecodeClaimsTo(&map[string]any{})}, {jwt.DecodeClaimsTo(&verifiable.JWTCredClaims{})}} {
				tok, _, err := jwt.Parse(text, o...)
				if err != nil || tok == nil {
					continue
				}

				ok = true
				_ = tok.LookupStringHeader("kid")
				_ = tok.DecodeClaims(&map[string]any{})
				_ = tok.DecodeClaims(&jwt.Claims{})
				_, _ = tok.Serialize(false)
				_, _ = tok.Serialize(true)
				_ = jwt.CheckHeaders(tok.Headers)
				_ = common.VerifyJWT(tok, time.Second)
				_ = common.VerifyTyp(tok.Headers, "JWT")
				_ = common.VerifySigningAlg(tok.Headers, []string{"EdDSA"})
			}

			_ = jwt.CheckProof(text, ch, nil, nil)
			_ = jwt.CheckProof(text, ch, &iss, []byte("x"))
			_, _, _ = jwt.ParseAndCheckProof(text, ch, true)
			_, _, _ = jwt.ParseAndCheckProof(text, vk.EmbeddedChecker(p.key), false)

			if msg, err := cwt.Parse([]byte(text)); err == nil {
				ok = true
				value, _ := vccwt.GetProofValue(msg)
				_ = cwt.CheckProof(msg, ch, &iss, value, msg.Signature)
				_ = cwt.CheckProof(msg, ch, nil, nil, nil)
			}

			_, _, _ = cwt.ParseAndCheckProof([]byte(text), ch, true)
			_, _, _ = cwt.ParseAndCheckProof([]byte(text), ch, false)
			_ = ch.FindIssuer([]byte(text))
			_, _ = verifiable.ParseCredential([]byte(text), parseOpts(verifiable.WithProofChecker(ch))...)
			_, _ = verifiable.ParsePresentation([]byte(text), vpOpts(verifiable.WithPresProofChecker(ch))...)
		})

		c.Class("%s parsed %v", form, ok)
		c.NonTrivial(text)
		c.Sample(text)
	})
}

// TestC15_Disclosures reads changed SD-JWTs as a holder, a verifier, and below that.
func TestC15_Disclosures(t *testing.T) {
	vk.Check(t, "every case", 5000, 120000, func(rt *rapid.T, c *vk.Case) {
		s := drawSD(rt)
		combined, err := s.issue(rt).Serialize(false)

		if err != nil {
			rt.Fatal(err)
		}

		jwtPart, rest, _ := strings.Cut(combined, "~")
		text := forgeSD(rt, jwtPart, rest, s.key)

		if rapid.Bool().Draw(rt, "closed") {
			text += "~"
		}

		ch := s.world.Checker()
		names := vk.Pick(rt, "names", nil, []string{"a"}, []string{"", "x", "..."})
		signer := joseSigner(s.key, s.kid, "")
		ok := ""

		survives(rt, "reading an SD-JWT", text, func() {
			for _, o := range [][]holder.ParseOpt{
				{holder.WithSignatureVerifier(ch)}, {holder.WithSignatureVerifier(&holder.NoopSignatureVerifier{})},
				{holder.WithSignatureVerifier(ch), holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms([]string{"EdDSA", "ES256", "ES384"}), holder.WithLeewayForClaimsValidation(time.Hour), holder.WithExpectedTypHeader("JWT")},
			} {
				if _, err := holder.Parse(text, o...); err == nil {
					ok += "h"
				}
			}

			info := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a", IssuedAt: gojose.NewNumericDate(time.Now())}, Signer: signer}

			if x, err := holder.CreatePresentation(text, names, holder.WithHolderVerification(info)); err == nil {
				_, _ = verifier.Parse(x, verifier.WithSignatureVerifier(ch), verifier.WithHolderVerificationRequired(true),
					verifier.WithExpectedNonceForHolderVerification("n"), verifier.WithExpectedAudienceForHolderVerification("a"))
			}

			for _, o := range [][]verifier.ParseOpt{
				{verifier.WithSignatureVerifier(ch), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA", "ES256", "ES384"})},
				{verifier.WithSignatureVerifier(&holder.NoopSignatureVerifier{}), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA", "ES256", "ES384", "none"})},
				{verifier.WithSignatureVerifier(ch), verifier.WithHolderBindingRequired(true), verifier.WithHolderVerificationRequired(true), verifier.WithExpectedTypHeader("vc+sd-jwt")},
			} {
				if _, err := verifier.Parse(text, o...); err == nil {
					ok += "v"
				}
			}

			cf := common.ParseCombinedFormatForIssuance(text)
			_ = cf.Serialize()
			pf := common.ParseCombinedFormatForPresentation(text)
			_ = pf.Serialize()

			for _, h := range append(append([]crypto.Hash{}, sdHashes...), crypto.MD5, 0, 99) {
				cl, err := common.GetDisclosureClaims(pf.Disclosures, h)
				if err != nil {
					continue
				}

				if tok, _, err := jwt.Parse(pf.SDJWT); err == nil {
					_, _ = common.GetDisclosedClaims(cl, tok.Payload)
					_ = common.VerifyDisclosuresInSDJWT(pf.Disclosures, tok)
					_, _ = common.GetDisclosureDigests(tok.Payload)
					_, _ = common.GetSDAlg(tok.Payload)
					_, _ = common.GetCNF(tok.Payload)
					_, _ = common.GetCryptoHashFromClaims(tok.Payload)
					_, _ = common.GetKeyFromVC("cnf", tok.Payload)
				}
			}

			if x, err := verifiable.ParseCredential([]byte(text), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...); err == nil {
				ok += "c"
				_, _ = x.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
				_, _ = x.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(names))
				_, _ = x.MarshalJSON()
			}
		})

		c.Class("accepted by %s", ok)
		c.NonTrivial(text)
		c.Sample(text)
	})
}

// TestC15_Issuing has SD-JWTs made of odd claims and credentials.
func TestC15_Issuing(t *testing.T) {
	vk.Check(t, "every case", 3000, 80000, func(rt *rapid.T, c *vk.Case) {
		s := drawSD(rt)
		claims := mangle(rt, vk.CloneMap(s.claims), false)
		m, ok := claims.(map[string]any)
		raw := vk.MustJSON(claims)

		opts := s.opts()
		if vk.Coin(rt, "recursive", 2) {
			var paths []string

			sdPaths("", claims, &paths)
			opts = append(opts, issuer.WithRecursiveClaimsObjects(sample(rt, "recursive", paths, 3)), issuer.WithAlwaysIncludeObjects(sample(rt, "always", paths, 3)),
				issuer.WithNonSelectivelyDisclosableClaims(sample(rt, "clear", paths, 3)), issuer.WithStructuredClaims(rapid.Bool().Draw(rt, "str")))
		}

		signer := joseSigner(s.key, s.kid, "")
		made := false

		use := func(tok *issuer.SelectiveDisclosureJWT, err error) {
			if err != nil {
				return
			}

			made = true
			_ = tok.DecodeClaims(&map[string]any{})
			_ = tok.LookupStringHeader("kid")

			text, err := tok.Serialize(false)
			if err != nil {
				return
			}

			_, _ = holder.Parse(text, holder.WithSignatureVerifier(&holder.NoopSignatureVerifier{}))
			_, _ = verifier.Parse(text+"~", verifier.WithSignatureVerifier(&holder.NoopSignatureVerifier{}))
		}

		survives(rt, "issuing an SD-JWT", raw, func() {
			use(issuer.New(s.iss, claims, nil, signer, opts...))
			use(issuer.New(s.iss, json.RawMessage(raw), jose.Headers{}, signer, opts...))
			_, _ = jwt.PayloadToMap(claims)
			_, _ = jwt.NewUnsecured(claims)

			if ok {
				use(issuer.NewFromVC(vk.CloneMap(map[string]any{"credentialSubject": claims}), nil, signer, opts...))
				use(issuer.NewFromVC(m, nil, signer, opts...))
			}
		})

		c.Class("made %v", made)
		c.NonTrivial(string(raw))
		c.Sample(string(raw))
	})
}

// TestC15_Proofs verifies changed documents with proofs against changed keys.
func TestC15_Proofs(t *testing.T) {
	vk.Check(t, "every case", 1500, 40000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		key := vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256, vk.ES384), "c15")
		p := addParty(w, issDID, key)
		form := vk.Pick(rt, "form", "ldp", "ldp", "di", "di", "none")
		g := credGen{LD: true, Valid: true, NoSchema: true, Issuer: p.did}
		doc, _ := g.draw(rt)
		doc = vk.CloneMap(doc)
		doc["@context"] = asList(doc["@context"])
		vm := c05VM{owner: p.did, id: p.kid, key: p.key}

		raw := vk.MustJSON(doc)

		switch form {
		case "ldp":
			raw = signLD(rt, doc, vm)
		case "di":
			doc["@context"] = append(asList(doc["@context"]), diCtx)
			raw = signDI(rt, doc, vm, w)
		}

		var v any = objOf(rt, raw)

		// mostly around the proof
		if m, ok := v.(map[string]any); ok && m["proof"] != nil && vk.Coin(rt, "proof", 2) {
			m["proof"] = mangle(rt, m["proof"], false)
		} else {
			v = mangle(rt, v, false)
		}

		text := vk.MustJSON(v)

		// the signer's document may be odd as well
		oddKey := ""

		if vk.Coin(rt, "odd key", 2) {
			typ := vk.Pick(rt, "type", "JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "EcdsaSecp256k1VerificationKey2019", "Multikey", "Bls12381G2Key2020", "", "x")
			var b []byte

			switch vk.Pick(rt, "bytes", "none", "few", "key", "bytes") {
			case "none":
				b = []byte{}
			case "few":
				b = rapid.SliceOfN(rapid.Byte(), 1, 100).Draw(rt, "key")
			case "key":
				b = key.PubBytes
			default:
				b = mangleBytes(rt, key.PubBytes)
			}

			w.AddDID(p.did, vk.VM{ID: p.kid, Type: typ, Key: key, Raw: b})
			oddKey = fmt.Sprintf("%s %x", typ, b)
		}

		ch := w.Checker()
		di := diVerifier(w, vk.Loader())
		opts := &models.ProofOptions{
			Purpose: vk.Pick(rt, "purpose", "", "assertionMethod", "authentication", "x"), Domain: vk.Pick(rt, "domain", "", "d"),
			Challenge: vk.Pick(rt, "challenge", "", "c"), VerificationMethodID: vk.Pick(rt, "vm", p.kid, "", "x", "did:ex:none#k"),
			ProofType: vk.Pick(rt, "type", models.DataIntegrityProof, "", "x"), SuiteType: vk.Pick(rt, "suite", "eddsa-rdfc-2022", "ecdsa-rdfc-2019", "", "x"),
		}
		signer := diSigner(w, key)
		ok := ""

		survives(rt, "verifying a proof", append([]byte(oddKey+" "), text...), func() {
			iss := p.did

			if lddocument.NewDocumentVerifier(ch).Verify(text, nil, ldOpts()...) == nil {
				ok += "l"
			}

			_ = lddocument.NewDocumentVerifier(ch).Verify(text, &iss, ldOpts()...)

			if m, is := v.(map[string]any); is {
				_ = lddocument.NewDocumentVerifier(ch).VerifyObject(m, &iss, ldOpts()...)
				_ = lddocument.NewDocumentSigner(key.Creator()).Sign(&lddocument.SigningContext{
					SignatureType: "JsonWebSignature2020", KeyType: key.KMSType, SignatureRepresentation: proof.SignatureJWS, VerificationMethod: p.kid,
				}, vk.CloneMap(m), ldOpts()...)
			}

			if di.VerifyProof(text, opts) == nil {
				ok += "d"
			}

			if out, err := signer.AddProof(text, opts); err == nil {
				ok += "s"
				_ = di.VerifyProof(out, opts)
			}

			_, _ = verifiable.ParseCredential(text, parseOpts(verifiable.WithProofChecker(ch), verifiable.WithDataIntegrityVerifier(di))...)

			if d, err := did.ParseDocument(text); err == nil {
				_ = verifiable.VerifyDIDProof(d, verifiable.WithDIDProofChecker(ch), verifiable.WithDIDDataIntegrityVerifier(di), verifiable.WithDIDJSONLDDocumentLoader(vk.Loader()))
			}
		})

		c.Class("%s %s odd key %v", form, ok, oddKey != "")
		c.NonTrivial(string(text), oddKey)
		c.Sample(string(text))
	})
}

// TestC15_Derived verifies and derives from changed BBS+ signatures, proofs and reveal documents.
func TestC15_Derived(t *testing.T) {
	vk.Check(t, "every case", 250, 8000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		s := &bbsSetup{w: w, key: vk.GetKey(vk.BBS, "c15"), vm: issDID + "#bbs"}
		w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: s.key}, vk.VM{Fragment: "ed", Key: vk.GetKey(vk.EdDSA, "c15")})

		raw := c15BBS(rt, s)
		form := vk.Pick(rt, "form", "signed", "signed", "derived", "derived")
		frame := map[string]any{"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL, ctxBBS}, "type": "VerifiableCredential", "@explicit": true,
			"issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{"@explicit": true, "t0": map[string]any{}}}
		pub, creator := w.Checker(), s.creator()

		if form == "derived" {
			cred, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithDisabledProofCheck())...)
			if err != nil {
				rt.Fatal(err)
			}

			d, err := cred.GenerateBBSSelectiveDisclosure(frame, []byte("nonce"), creator, parseOpts()...)
			if err != nil {
				rt.Fatal(err)
			}

			if raw, err = d.MarshalJSON(); err != nil {
				rt.Fatal(err)
			}
		}

		m := objOf(rt, raw)
		oddKey := ""

		switch vk.Pick(rt, "change", "document", "proof", "proof", "value", "value", "frame", "key") {
		case "document":
			m, _ = mangle(rt, m, false).(map[string]any)
		case "proof":
			m["proof"] = mangle(rt, m["proof"], false)
		case "value":
			if p, ok := m["proof"].(map[string]any); ok {
				if v, ok := p["proofValue"].(string); ok {
					b, err := c15Std.DecodeString(v)
					if err == nil {
						p["proofValue"] = c15Std.EncodeToString(mangleBytes(rt, b))
					}
				}
			}
		case "frame":
			frame, _ = mangle(rt, frame, false).(map[string]any)
		default:
			b := mangleBytes(rt, s.key.PubBytes)
			w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Key: s.key, Raw: b})
			oddKey = fmt.Sprintf("%x", b)
		}

		text := vk.MustJSON(m)
		ok := ""

		survives(rt, "a BBS+ signature", fmt.Sprintf("%s %s %s", text, vk.JS(frame), oddKey), func() {
			x, err := verifiable.ParseCredential(text, parseOpts(verifiable.WithProofChecker(pub))...)
			if err == nil {
				ok += "v"
			}

			x, err = verifiable.ParseCredential(text, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
			if err != nil {
				return
			}

			if d, err := x.GenerateBBSSelectiveDisclosure(frame, []byte("n"), creator, parseOpts()...); err == nil {
				ok += "d"
				_, _ = d.MarshalJSON()
			}
		})

		c.Class("%s %s", form, ok)
		c.NonTrivial(string(text), vk.JS(frame), oddKey)
		c.Sample(string(text))
	})
}

// c15BBS is a small credential with a BBS+ signature.
func c15BBS(rt *rapid.T, s *bbsSetup) []byte {
	x, err := verifiable.ParseCredential(vk.MustJSON(map[string]any{
		"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL, ctxBBS}, "id": "did:ex:cred", "type": []any{"VerifiableCredential"},
		"issuer": issDID, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:sub", "t0": "x", "t1": "y"},
	}), parseOpts(verifiable.WithDisabledProofCheck())...)
	if err != nil {
		rt.Fatal(err)
	}

	signBBS(rt, x, s.key, s.vm)

	return mustJSON(rt, x)
}

// TestC15_Definitions uses changed definitions and submissions on wallets with changed credentials.
func TestC15_Definitions(t *testing.T) { //nolint:gocyclo
	vk.Check(t, "every case", 2500, 60000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c15"))
		e := newC15Env(w, p)
		creds := drawWallet(rt, peGen{v2: vk.Coin(rt, "v2", 3), plainID: true, forms: []string{"plain", "ld", "jwt", "sdjwt"}})
		d := peDefGen{}.draw(rt, creds)
		var doc any = d.json()

		if vk.Coin(rt, "limited", 2) {
			for _, x := range doc.(map[string]any)["input_descriptors"].([]any) { //nolint:forcetypeassert
				if m, ok := x.(map[string]any)["constraints"].(map[string]any); ok { //nolint:forcetypeassert
					m["limit_disclosure"] = vk.Pick(rt, "limit", "required", "preferred")
				}
			}
		}

		if vk.Coin(rt, "framed", 8) {
			doc.(map[string]any)["frame"] = vk.Pick[any](rt, "frame", map[string]any{}, map[string]any{"@context": 1.0}, map[string]any{"type": "VerifiableCredential", "@explicit": true}) //nolint:forcetypeassert
		}

		changed := vk.Pick(rt, "changed", "definition", "definition", "definition", "submission", "submission", "wallet")
		wallet := walletOf(creds)

		if changed == "definition" {
			doc = mangle(rt, vk.Clone(doc), false)
		}

		if changed == "wallet" {
			for i, x := range wallet {
				b, err := x.MarshalJSON()
				if err != nil {
					rt.Fatal(err)
				}

				y, err := verifiable.ParseCredential([]byte(forge(rt, string(b), p.key, p.kid)), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
				if err == nil {
					wallet[i] = y
				}
			}
		}

		text := vk.MustJSON(doc)

		var mangled []any

		if changed == "submission" {
			// a valid one that gets changed
			pd := d.definition(rt)
			if vp, err := pd.CreateVP(walletOf(creds), vk.Loader()); err == nil {
				m := decodeAny(mustJSON(rt, vp))
				if vk.Coin(rt, "whole", 3) {
					mangled = append(mangled, mangle(rt, m, false))
				} else {
					m["presentation_submission"] = mangle(rt, m["presentation_submission"], false)
					mangled = append(mangled, m)
				}
			}
		}

		alt := vk.Pick[any](rt, "submission", nil, map[string]any{}, map[string]any{"descriptor_map": 1.0}, map[string]any{"descriptor_map": []any{nil}},
			map[string]any{"descriptor_map": []any{map[string]any{"id": "d0", "format": "ldp_vc", "path": "$"}}},
			map[string]any{"descriptor_map": []any{map[string]any{"id": "d0", "format": "ldp_vc", "path": "$.verifiableCredential[0]", "path_nested": map[string]any{"path": "$.x"}}}})
		format := vk.Pick(rt, "format", "", "jwt_vp", "ldp_vp", "x")
		bbs := vk.Coin(rt, "bbs creator", 3)
		ok := ""
		input := fmt.Sprintf("%s\n%s\n%s\n%s", text, vk.JS(mangled), vk.JS(alt), describeWallet(creds))

		if changed == "wallet" {
			for _, x := range wallet {
				input += "\n" + vk.JS(x.ToRawJSON())
			}
		}

		survives(rt, "using a definition", input, func() {
			pd := &presexch.PresentationDefinition{}
			if json.Unmarshal(text, pd) != nil {
				return
			}

			ok += "p"

			if pd.ValidateSchema() == nil {
				ok += "s"
			}

			ropts := []presexch.MatchRequirementsOpt{presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(parseOpts()...), presexch.WithDefaultPresentationFormat(format)}
			if bbs {
				ropts = append(ropts, presexch.WithSDBBSProofCreator((&bbsSetup{w: w}).creator()))
			}

			if vp, err := pd.CreateVP(wallet, vk.Loader(), ropts...); err == nil {
				ok += "v"
				e.inspectVP(vp, false)
				_, _ = pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...), presexch.WithDisableSchemaValidation())
			}

			if vps, sub, err := pd.CreateVPArray(wallet, vk.Loader(), ropts...); err == nil {
				_, _ = pd.Match(vps, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...), presexch.WithMergedSubmission(sub))
				_, _ = pd.Match(vps, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...))
			}

			_, _ = pd.MatchSubmissionRequirement(wallet, vk.Loader(), ropts...)

			if got, err := pd.MatchSubmissionRequirement(wallet, vk.Loader()); err == nil {
				ok += "r"
				_ = showMatched(got)
			}

			for _, m := range mangled {
				vp, err := verifiable.ParsePresentation(vk.MustJSON(m), vpOpts(verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())...)
				if err != nil {
					continue
				}

				vps := []*verifiable.Presentation{vp}
				if _, err := pd.Match(vps, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...), presexch.WithDisableSchemaValidation()); err == nil {
					ok += "m"
				}

				_, _ = pd.Match(append(vps, vp), vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...))

				if am, is := alt.(map[string]any); is || alt == nil {
					_, _ = pd.Match(vps, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...), presexch.WithMergedSubmissionMap(am))

					sub := &presexch.PresentationSubmission{}
					if json.Unmarshal(vk.MustJSON(am), sub) == nil {
						_, _ = pd.Match(vps, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...), presexch.WithMergedSubmission(sub))
					}
				}
			}

			for _, x := range wallet {
				_ = presexch.ExtractArrayValuesForSDJWTV5(x.ToRawJSON())
			}
		})

		c.Class("%s %s", changed, ok)
		c.NonTrivial(input)
		c.Sample(string(text))
	})
}

// TestC15_Clients verifies status, links, schemas and resources with changed answers from the network.
func TestC15_Clients(t *testing.T) {
	quietDIDConfig()

	vk.Check(t, "every case", 1800, 50000, func(rt *rapid.T, c *vk.Case) {
		what := vk.Pick(rt, "client", "status entry", "status list", "links", "links", "schema", "list bytes")

		switch what {
		case "status entry", "status list", "list bytes":
			s := newStatusWorld()
			entry := s.entry(rt)
			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI}, "id": "urn:cred", "type": []any{"VerifiableCredential"}, "issuer": statusIssuer,
				"issuanceDate": "2021-04-05T14:27:40Z", "credentialSubject": map[string]any{"id": "did:ex:s"}, "credentialStatus": vk.Clone(entry.entry),
			}

			if what == "status entry" {
				doc["credentialStatus"] = mangle(rt, doc["credentialStatus"], false)
			}

			for _, u := range vk.SortedKeys(anyOfWeb(s.net)) {
				r := s.net[u]

				switch what {
				case "status list":
					r.body = []byte(forge(rt, string(r.body), vk.GetKey(vk.EdDSA, "c15"), "k"))
				case "list bytes":
					var m map[string]any
					if json.Unmarshal(r.body, &m) == nil {
						if sub, ok := m["credentialSubject"].(map[string]any); ok {
							if l, ok := sub["encodedList"].(string); ok {
								sub["encodedList"] = mangleText(rt, l)
								if rapid.Bool().Draw(rt, "packed") {
									sub["encodedList"] = vk.Pick(rt, "base", "", "u", "m") + vk.B64(gz(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "bits"), 1))
								}

								r.body = vk.MustJSON(m)
							}
						}
					}
				}
			}

			text := vk.MustJSON(doc)
			pages := fmt.Sprintf("%s %s", text, webText(s.net))
			answer := ""

			survives(rt, "checking a status", pages, func() {
				cred, err := verifiable.ParseCredential(text, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
				if err != nil {
					return
				}

				answer = statusAnswer(s.client().VerifyStatus(cred))

				for _, st := range cred.Contents().Status {
					for _, typ := range []string{slType, bsType} {
						v, err := validator.GetValidator(typ)
						if err != nil {
							continue
						}

						_ = v.ValidateStatus(st)
						_, _ = v.GetStatusVCURI(st)
						_, _ = v.GetStatusListIndex(st)
						_, _ = v.GetStatusPurpose(st)
					}
				}
			})

			c.Class("%s: %s", what, answer)
			c.NonTrivial(pages)
			c.Sample(pages)
		case "links":
			w, keys := linkWorld(rt)
			did, domain := vk.Pick(rt, "did", linkDIDs...), vk.Pick(rt, "domain", linkOrigins...)
			cfg, _, _ := drawConfig(rt, did, domain, keys)

			if rapid.Bool().Draw(rt, "tokens") {
				var v any
				if json.Unmarshal(cfg, &v) == nil {
					at := 0
					cfg = vk.MustJSON(forgeTokens(rt, v, keys[did], &at))
				}
			} else {
				cfg = []byte(forge(rt, string(cfg), keys[did], did+"#k"))
			}

			if vk.Coin(rt, "odd names", 6) {
				did, domain = vk.Pick(rt, "text", hostileTexts...), vk.Pick(rt, "text", hostileTexts...)
			}

			ok := false

			survives(rt, "verifying a DID configuration", fmt.Sprintf("%s %q %q", cfg, did, domain), func() {
				ok = didconfigverifier.VerifyDIDAndDomain(cfg, did, domain, didconfigverifier.WithJSONLDDocumentLoader(vk.Loader()), didconfigverifier.WithVDRegistry(w)) == nil
				_ = didconfigclient.New(didconfigclient.WithJSONLDDocumentLoader(vk.Loader()), didconfigclient.WithVDRegistry(w),
					didconfigclient.WithHTTPClient(deadWeb(cfg))).VerifyDIDAndDomain(did, domain)
			})

			c.Class("links %v", ok)
			c.NonTrivial(string(cfg))
			c.Sample(string(cfg))
		default:
			doc, _ := credGen{LD: true, SingleSub: true, NoSchema: true, Valid: true}.draw(rt)
			doc = vk.CloneMap(doc)
			sub, _ := doc["credentialSubject"].(map[string]any)
			page := drawSchema(rt, sub)
			ref := any(map[string]any{"id": "https://schemas.example/1", "type": vk.Pick(rt, "type", "JsonSchema", "JsonSchemaValidator2018")})

			if vk.Coin(rt, "odd reference", 4) {
				ref = mangle(rt, ref, false)
			}

			doc["credentialSchema"] = ref
			body := string(mangledJSON(rt, vk.Clone(page)))
			text := vk.MustJSON(doc)
			ok := false

			survives(rt, "checking a schema", body+" "+string(text), func() {
				web := &http.Client{Transport: deadWeb(body)}
				cache := verifiable.NewExpirableSchemaCache(1<<20, time.Hour)

				for range 2 {
					l := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(web).SetCache(cache).Build()
					_, err := verifiable.ParseCredential(text, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(l))...)
					ok = err == nil
				}

				_, _ = verifiable.ParseCredential(text, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithSchema(body))...)
			})

			c.Class("schema %v", ok)
			c.NonTrivial(body, string(text))
			c.Sample(body)
		}
	})
}

// forgeTokens changes one of the texts in v that are tokens.
func forgeTokens(rt *rapid.T, v any, key *vk.Key, n *int) any {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range vk.SortedKeys(x) {
			x[k] = forgeTokens(rt, x[k], key, n)
		}
	case []any:
		for i := range x {
			x[i] = forgeTokens(rt, x[i], key, n)
		}
	case string:
		if strings.Count(x, ".") == 2 && len(x) > 100 {
			return forgeJWS(rt, x, key)
		}
	}

	return v
}

func anyOfWeb(w web) map[string]any {
	out := map[string]any{}
	for k := range w {
		out[k] = true
	}

	return out
}

func webText(w web) string {
	var out []string
	for _, u := range vk.SortedKeys(anyOfWeb(w)) {
		out = append(out, fmt.Sprintf("%s: %q", u, w[u].body))
	}

	return strings.Join(out, "\n")
}

// TestC15_Texts hands odd texts and values to the small readers.
func TestC15_Texts(t *testing.T) {
	vk.Check(t, "every case", 8000, 200000, func(rt *rapid.T, c *vk.Case) {
		text := vk.Pick(rt, "text", hostileTexts...)

		for i := rapid.IntRange(0, 3).Draw(rt, "changes"); i > 0; i-- {
			text = mangleText(rt, text)
		}

		if vk.Coin(rt, "bytes", 6) {
			text = string(rapid.SliceOf(rapid.Byte()).Draw(rt, "bytes"))
		}

		v := mangle(rt, map[string]any{"id": "x", "type": "y", "a": []any{1.0, "x"}, "b": map[string]any{"id": "z"}}, false)
		m, _ := v.(map[string]any)
		raw := vk.MustJSON(v)
		other := vk.Pick(rt, "other", hostileNames...)

		survives(rt, "a small reader", text+"\n"+string(raw), func() {
			if mt, enc, data, err := verifiable.ParseDataURL(text); err == nil {
				_ = verifiable.NewDataURL(mt, enc, data)
			}

			_, _, _, _ = verifiable.ParseDataURL("data:" + text)
			_, _ = util.ParseTimeWrapper(text)

			if tm, err := vctime.ParseTimeWrapper(text); err == nil {
				_, _ = tm.MarshalJSON()
				_ = tm.FormatToString()
			}

			_, _ = vctime.ParseTimeWithTrailingZeroMsec(text)

			for _, b := range [][]byte{[]byte(text), raw, vk.MustJSON(text)} {
				tm := &vctime.TimeWrapper{}
				if tm.UnmarshalJSON(b) == nil {
					_, _ = tm.MarshalJSON()
				}

				cf := map[string]any{}
				var s struct {
					ID string `json:"id,omitempty"`
					A  []any  `json:"a,omitempty"`
				}

				if jsonutil.UnmarshalWithCustomFields(b, &s, cf) == nil {
					_, _ = jsonutil.MarshalWithCustomFields(s, cf)
					_, _ = jsonutil.MergeCustomFields(s, cf)
				}

				cl := &verifiable.JWTCredClaims{}
				if cl.UnmarshalJSON(b) == nil {
					_, _ = cl.MarshalUnsecuredJWT()
					_, _ = cl.ToSDJWTV5CredentialPayload()
				}

				_, _ = jsonutil.ToMap(b)
				_, _ = jsonutil.ToMap(string(b))
				_, _ = verifiable.JWTVCToJSON(b)
				_, _ = jwt.PayloadToMap(b)

				for _, typ := range []any{&verifiable.Issuer{}, &verifiable.Subject{}, &verifiable.TypedID{}, &presexch.PresentationDefinition{}, &presexch.PresentationSubmission{}} {
					if json.Unmarshal(b, typ) == nil {
						_, _ = json.Marshal(reflect.ValueOf(typ).Elem().Interface())
					}
				}
			}

			if iss, err := verifiable.IssuerFromJSON(m); err == nil && iss != nil {
				_ = verifiable.IssuerToJSON(*iss)
			}

			if sub, err := verifiable.SubjectFromJSON(m); err == nil {
				_ = verifiable.SubjectToJSON(sub)
			}

			_, _ = verifiable.GetBaseContextFromRawDocument(m)
			_ = verifiable.HasBaseContext(m, text)
			_, _ = verifiable.GetBaseContext([]string{text})
			_, _ = jsonutil.SplitJSONObj(m, "id", other)
			_ = jsonutil.ShallowCopyObj(m)
			_ = jsonutil.CopyExcept(m, other)
			_ = jsonutil.Select(m, other)
			_ = maphelpers.CopyMap(m)
			_, _ = jsonutil.ToMap(v)
			_, _ = common.GetCNF(m)
			_, _ = common.GetSDAlg(m)
			_, _ = common.GetCryptoHashFromClaims(m)
			_, _ = common.GetDisclosureDigests(m)
			_, _ = common.GetKeyFromVC(other, m)
			_, _ = common.ParseCryptoHashAlg(text)
			_, _ = common.GetDisclosureClaims([]string{text, vk.B64(raw), vk.B64([]byte(text))}, crypto.SHA256)
			_ = common.ParseCombinedFormatForIssuance(text).Serialize()
			_ = common.ParseCombinedFormatForPresentation(text).Serialize()
			_ = jwt.CheckHeaders(m)
			_, _ = verifiable.JWSAlgorithm(len(text)).Name()
			_ = presexch.ExtractArrayValuesForSDJWTV5(m)

			if m != nil {
				env := verifiable.Envelope{}
				if json.Unmarshal(raw, &env) == nil {
					_, _ = env.ToRawJSON()
				}
			}
		})

		c.NonTrivial(text, string(raw))
		c.Sample(text + " " + string(raw))
	})
}

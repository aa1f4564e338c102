package props

import (
	"crypto"
	"fmt"
	"strings"
	"testing"
	"time"

	josejwt "github.com/go-jose/go-jose/v3/jwt"
	util "github.com/trustbloc/did-go/doc/util/time"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	didconfigverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// vandalise changes everything reachable in a JSON-like value.
func vandalise(v any) {
	switch t := v.(type) {
	case map[string]any:
		if t == nil {
			return
		}

		for _, k := range vk.SortedKeys(t) {
			vandalise(t[k])
		}

		for _, k := range vk.SortedKeys(t) {
			if _, ok := t[k].(string); ok {
				t[k] = "vandalised"
			} else {
				delete(t, k)
			}
		}

		t["vandalised"] = true
	case verifiable.Proof:
		vandalise(map[string]any(t))
	case verifiable.CustomFields:
		vandalise(map[string]any(t))
	case []map[string]any:
		for _, x := range t {
			vandalise(x)
		}
	case []any:
		for i := range t {
			vandalise(t[i])
			t[i] = "vandalised"
		}
	case []string:
		for i := range t {
			t[i] = "vandalised"
		}
	}
}

func vandaliseTyped(t *verifiable.TypedID) {
	t.ID, t.Type = "vandalised", "vandalised"
	vandalise(t.CustomFields)
}

func vandaliseContents(c verifiable.CredentialContents) {
	vandalise(c.Context)
	vandalise(c.CustomContext)
	vandalise(c.Types)

	if c.Issuer != nil {
		c.Issuer.ID = "vandalised"
		vandalise(c.Issuer.CustomFields)
	}

	for i := range c.Subject {
		c.Subject[i].ID = "vandalised"
		vandalise(c.Subject[i].CustomFields)
	}

	for _, s := range c.Status {
		vandaliseTyped(s)
	}

	for i := range c.Schemas {
		vandaliseTyped(&c.Schemas[i])
	}

	for i := range c.TermsOfUse {
		vandaliseTyped(&c.TermsOfUse[i])
	}

	if c.RefreshService != nil {
		vandaliseTyped(c.RefreshService)
	}

	for i := range c.RelatedResources {
		c.RelatedResources[i].Id = "vandalised"
	}

	for _, when := range []*util.TimeWrapper{c.Issued, c.Expired} {
		if when != nil {
			when.Time = when.Time.Add(time.Hour)
		}
	}

	if c.SDJWTHashAlg != nil {
		*c.SDJWTHashAlg = crypto.MD5
	}

	vandalise(c.Evidence)
}

// liveCred is a credential with what it has to show.
type liveCred struct {
	form string
	cred *verifiable.Credential
	view string
}

func (l *liveCred) now(rt *rapid.T) string {
	raw, err := vk.DecodeJSON(vk.MustJSON(l.cred.ToRawJSON()))
	if err != nil {
		rt.Fatal(err)
	}

	out, err := l.cred.MarshalJSON()
	if err != nil {
		out = []byte("error: " + err.Error())
	}

	var ps []any
	for _, p := range l.cred.Proofs() {
		ps = append(ps, map[string]any(p))
	}

	text := string(out)

	// disclosures come in random order
	if strings.Contains(text, "~") {
		parts := strings.Split(strings.Trim(text, `"`), "~")
		text = strings.Join(vk.Sorted(parts), "~")
	}

	hash := "none"
	if h := l.cred.Contents().SDJWTHashAlg; h != nil {
		hash = h.String()
	}

	return vk.JS(map[string]any{"raw": raw, "hash": hash, "contents": contentsView(l.cred.Contents()), "out": text, "proofs": ps, "headers": fmt.Sprint(l.cred.JWTHeaders())})
}

// modify draws a modifier: it gives the modified copy and how contents and document should have changed.
func modify(rt *rapid.T, l *liveCred, v int) (name string, out *verifiable.Credential, wantDoc, wantContents map[string]any) {
	wantDoc = objOf(rt, vk.MustJSON(l.cred.ToRawJSON()))
	delete(wantDoc, "proof")

	wantContents = objOf(rt, vk.MustJSON(contentsView(l.cred.Contents())))

	// the parts of a document of the same data model to take from
	doc, _ := credGen{Version: v, Valid: true}.draw(rt)
	doc = vk.CloneMap(doc)
	contents := toContents(rt, doc)
	other := objOf(rt, vk.MustJSON(contentsView(contents)))

	from, until := "issuanceDate", "expirationDate"
	if v == 2 {
		from, until = "validFrom", "validUntil"
	}

	set := func(member, part string, empty bool) {
		if empty {
			delete(wantDoc, member)
		} else {
			wantDoc[member] = doc[member]
		}

		wantContents[part] = other[part]
	}

	name = vk.Pick(rt, "modifier", "id", "issued", "from", "expired", "until", "context", "status", "refresh", "issuer", "subject")

	switch name {
	case "id":
		out = l.cred.WithModifiedID(contents.ID)
		set("id", "id", contents.ID == "")
	case "issued", "from":
		if contents.Issued == nil && !vk.Coin(rt, "no time", 2) {
			contents.Issued, _ = util.ParseTimeWrapper("2020-01-02T03:04:05Z")
			doc[from], other["from"] = "2020-01-02T03:04:05Z", "2020-01-02T03:04:05Z"
		}

		if name == "issued" {
			out = l.cred.WithModifiedIssued(contents.Issued)
		} else {
			out = l.cred.WithModifiedValidFrom(contents.Issued)
		}

		set(from, "from", contents.Issued == nil)
	case "expired", "until":
		if name == "expired" {
			out = l.cred.WithModifiedExpired(contents.Expired)
		} else {
			out = l.cred.WithModifiedValidUntil(contents.Expired)
		}

		set(until, "until", contents.Expired == nil)
	case "context":
		out = l.cred.WithModifiedContext(contents.Context)
		wantContents["context"] = other["context"]
		wantDoc["@context"] = append(append([]any{}, asList(other["context"])...), asList(wantContents["customContext"])...)
	case "status":
		if vk.Coin(rt, "nil status", 4) {
			contents.Status = append(contents.Status, nil)
		}

		out = l.cred.WithModifiedStatus(contents.Status...)
		set("credentialStatus", "status", len(asList(doc["credentialStatus"])) == 0)
	case "refresh":
		out = l.cred.WithModifiedRefreshService(contents.RefreshService)
		set("refreshService", "refresh", contents.RefreshService == nil)
	case "issuer":
		if vk.Coin(rt, "no issuer", 6) {
			contents.Issuer, other["issuer"] = nil, nil
		}

		out = l.cred.WithModifiedIssuer(contents.Issuer)
		set("issuer", "issuer", contents.Issuer == nil)

		if m, ok := wantDoc["issuer"].(map[string]any); ok && len(m) == 1 && m["id"] != nil {
			wantDoc["issuer"] = m["id"]
		}
	case "subject":
		if vk.Coin(rt, "no subject", 6) {
			contents.Subject, other["subjects"] = nil, []any{}
		}

		out = l.cred.WithModifiedSubject(contents.Subject)
		set("credentialSubject", "subjects", len(contents.Subject) == 0)

		for _, x := range asList(wantDoc["credentialSubject"]) {
			if s, ok := x.(string); ok {
				wantDoc["credentialSubject"] = map[string]any{"id": s}
			}
		}
	}

	return name, out, wantDoc, wantContents
}

// credReads are operations that only read a credential.
var credReads = map[string]func(rt *rapid.T, w *vk.World, p party, c *verifiable.Credential){
	"JWT claims": func(rt *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_, _ = c.JWTClaims(rapid.Bool().Draw(rt, "min"))
	},
	"CWT claims": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) { _, _ = c.CWTClaims() },
	"marshal":    func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) { _, _ = c.MarshalAsJSONLD() },
	"universal":  func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) { _, _ = c.ToUniversalForm() },
	"JWT text":   func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) { _, _ = c.ToJWTString() },
	"disclose": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_, _ = c.MarshalWithDisclosure(verifiable.DiscloseAll())
	},
	"display": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_, _ = c.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
	},
	"display map": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_, _ = c.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
	},
	"unsecured": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) { _, _ = c.CreateUnsecuredJWTVC(false) },
	"validate": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_ = c.ValidateCredential(parseOpts()...)
	},
	"validate strict": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_ = c.ValidateCredential(parseOpts(verifiable.WithStrictValidation())...)
	},
	"validate outside": func(_ *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		_ = c.ValidateCredential(parseOpts(verifiable.WithExternalJSONLDContext(vk.ExtContextURL), verifiable.WithEnabledJSONLDTypesCheck())...)
	},
	"check proof": func(_ *rapid.T, w *vk.World, _ party, c *verifiable.Credential) {
		_ = c.CheckProof(parseOpts(verifiable.WithProofChecker(w.Checker()), verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader())))...)
	},
	"check proof outside": func(_ *rapid.T, w *vk.World, _ party, c *verifiable.Credential) {
		_ = c.CheckProof(parseOpts(verifiable.WithProofChecker(w.Checker()), verifiable.WithExternalJSONLDContext(vk.ExtContextURL),
			verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader())))...)
	},
	"make SD-JWT": func(rt *rapid.T, _ *vk.World, p party, c *verifiable.Credential) {
		_, _ = c.MakeSDJWT(joseSigner(p.key, p.kid, ""), p.kid, verifiable.MakeSDJWTWithVersion(vk.Pick(rt, "sdver", common.SDJWTVersionV2, common.SDJWTVersionV5)),
			verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"credentialSubject.t0", "t0"}),
			verifiable.MakeSDJWTWithAlwaysIncludeObjects([]string{"credentialSubject.t1"}), verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"t2", "id"}))
	},
	"sign JWT": func(rt *rapid.T, _ *vk.World, p party, c *verifiable.Credential) {
		_, _ = c.CreateSignedJWTVC(rapid.Bool().Draw(rt, "min"), jwsAlg[p.key.Kind], p.key.Creator(), p.kid)
	},
	"sign COSE": func(_ *rapid.T, _ *vk.World, p party, c *verifiable.Credential) {
		_, _ = c.CreateSignedCOSEVC(coseAlg[p.key.Kind], p.key.Creator(), p.kid)
	},
	"clone": func(rt *rapid.T, _ *vk.World, _ party, c *verifiable.Credential) {
		x := c.Clone()

		was := vk.JS(map[string]any{"raw": c.ToRawJSON(), "contents": contentsView(c.Contents())})
		if is := vk.JS(map[string]any{"raw": x.ToRawJSON(), "contents": contentsView(x.Contents())}); was != is {
			rt.Fatalf("a clone differs: %s -> %s", was, is)
		}

		for _, pr := range x.Proofs() {
			vandalise(pr)
		}

		vandaliseContents(x.Contents())
		x.SetCustomField("xclone", "x")

		if e := x.JWTEnvelope; e != nil {
			vandalise(map[string]any(e.JWTHeaders))
			e.JWT, e.SDHolderBinding = "x", "x"
			clear(e.SDJWTDisclosures)
		}

		if e := x.CWTEnvelope; e != nil {
			clear(e.Sign1MessageRaw)

			if e.Sign1MessageParsed != nil {
				e.Sign1MessageParsed.Payload = []byte("x")
			}
		}
	},
	"present": func(rt *rapid.T, w *vk.World, p party, c *verifiable.Credential) {
		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(c))
		if err != nil {
			rt.Fatal(err)
		}

		vp.ID, vp.Holder = "did:ex:vp", p.did
		before, _ := vp.MarshalJSON()
		clone := vp.Clone()

		_, _ = vp.JWTClaims([]string{"a"}, rapid.Bool().Draw(rt, "min"))
		_, _ = vp.CWTClaims([]string{"a"}, rapid.Bool().Draw(rt, "min"))
		_, _ = vp.MarshalCBOR()
		_, _ = vp.CreateJWTVP([]string{"a"}, jwsAlg[p.key.Kind], p.key.Creator(), p.kid, rapid.Bool().Draw(rt, "min"))

		if after, _ := vp.MarshalJSON(); normSD(string(after)) != normSD(string(before)) {
			rt.Fatalf("reading the presentation changed it: %s -> %s", before, after)
		}

		now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		_ = vp.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
			SignatureType: "JsonWebSignature2020", SignatureRepresentation: verifiable.SignatureJWS, KeyType: p.key.KMSType,
			ProofCreator: p.key.Creator(), VerificationMethod: p.kid, Created: &now, Purpose: "authentication",
		}, ldOpts()...)

		vp.CustomFields = verifiable.CustomFields{"x": 1.0}
		vp.Context = append(vp.Context, "https://a.example/x")

		if after, _ := clone.MarshalJSON(); normSD(string(after)) != normSD(string(before)) {
			rt.Fatalf("changing a presentation changed its clone: %s -> %s", before, after)
		}
	},
}

// normSD puts the disclosures of a text in order.
func normSD(s string) string {
	return strings.Join(vk.Sorted(strings.Split(s, "~")), "~")
}

// credEdits edit what a credential returns.
var credEdits = map[string]func(c *verifiable.Credential){
	"raw":        func(c *verifiable.Credential) { vandalise(c.ToRawJSON()) },
	"raw claims": func(c *verifiable.Credential) { vandalise(c.ToRawClaimsMap()) },
	"universal":  func(c *verifiable.Credential) { u, _ := c.ToUniversalForm(); vandalise(u) },
	"contents":   func(c *verifiable.Credential) { vandaliseContents(c.Contents()) },
	"custom field": func(c *verifiable.Credential) {
		for k := range c.ToRawJSON() {
			vandalise(c.CustomField(k))
		}
	},
	"JWT claims": func(c *verifiable.Credential) {
		if cl, err := c.JWTClaims(false); err == nil {
			vandalise(cl.VC)
		}
	},
	"JWT claims minimized": func(c *verifiable.Credential) {
		if cl, err := c.JWTClaims(true); err == nil {
			vandalise(cl.VC)
		}
	},
	"CWT claims": func(c *verifiable.Credential) {
		if cl, err := c.CWTClaims(); err == nil {
			vandalise(cl.VC)
		}
	},
	"headers": func(c *verifiable.Credential) { vandalise(map[string]any(c.JWTHeaders())) },
	"display": func(c *verifiable.Credential) {
		if m, err := c.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()); err == nil {
			vandalise(m)
		}
	},
	"display credential": func(c *verifiable.Credential) {
		if d, err := c.CreateDisplayCredential(verifiable.DisplayAllDisclosures()); err == nil {
			vandalise(d.ToRawJSON())
			vandaliseContents(d.Contents())
		}
	},
}

func namesOf[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	return vk.Sorted(out)
}

func TestC16_Histories(t *testing.T) { //nolint:gocyclo
	reads, edits := namesOf(credReads), namesOf(credEdits)

	vk.Check(t, "at least three operations of two kinds", 700, 20000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c16"))

		var (
			live []*liveCred
			docs []map[string]any // documents passed in
			was  []string
			log  []string
		)

		add := func(form string, cred *verifiable.Credential) {
			l := &liveCred{form: form, cred: cred}
			l.view = l.now(rt)
			live = append(live, l)
		}

		v := rapid.IntRange(1, 2).Draw(rt, "version")

		for i := rapid.IntRange(1, 2).Draw(rt, "start"); i > 0; i-- {
			form := vk.Pick(rt, "form", "plain", "ldp", "di", "jwt", "cwt", "sd", "created", "parsed JSON")

			switch form {
			case "created", "parsed JSON":
				doc, _ := credGen{Version: v, Valid: true, Issuer: p.did}.draw(rt)
				doc = vk.CloneMap(doc)

				if form == "created" {
					custom := customOf(doc)
					docs, was = append(docs, custom), append(was, vk.JS(custom))

					cred, err := verifiable.CreateCredential(toContents(rt, vk.CloneMap(doc)), custom)
					if err != nil {
						rt.Fatal(err)
					}

					add(form, cred)

					break
				}

				if ps := drawProofs(rt); len(ps) > 0 {
					doc["proof"] = ps
				}

				cred, err := verifiable.ParseCredentialJSON(doc, parseOpts(verifiable.WithDisabledProofCheck())...)
				if err != nil {
					rt.Fatalf("%v\n%s", err, vk.JS(doc))
				}

				docs, was = append(docs, doc), append(was, vk.JS(doc))
				add(form, cred)
			default:
				add(form, drawVPCred(rt, w, p, credGen{Version: v, Valid: true}, form).cred)
			}
		}

		kinds := map[string]bool{}
		steps := vk.Size(rt, "steps", 1, 8)

		for i := 0; i < steps; i++ {
			l := rapid.SampledFrom(live).Draw(rt, "credential")
			op := vk.Pick(rt, "op", "modify", "modify", "read", "read", "edit", "edit", "in place", "derive")
			what := op

			switch op {
			case "modify":
				name, out, wantDoc, wantContents := modify(rt, l, v)
				what += " " + name + " of " + l.form
				log = append(log, what)

				got := objOf(rt, vk.MustJSON(out.ToRawJSON()))
				if d := vk.Diff(meaning(wantDoc), meaning(got)); d != "" {
					rt.Fatalf("%v: the copy's document: %s\nwant %s\ngot  %s", log, d, vk.JS(wantDoc), vk.JS(got))
				}

				gotC := objOf(rt, vk.MustJSON(contentsView(out.Contents())))
				if d := vk.Diff(wantContents, gotC); d != "" {
					rt.Fatalf("%v: the copy's contents: %s\nwant %s\ngot  %s", log, d, vk.JS(wantContents), vk.JS(gotC))
				}

				add("modified", out)
			case "read":
				name := rapid.SampledFrom(reads).Draw(rt, "read")
				what += " " + name + " of " + l.form
				log = append(log, what)

				credReads[name](rt, w, p, l.cred)
			case "edit":
				name := rapid.SampledFrom(edits).Draw(rt, "edit")
				what += " " + name + " of " + l.form
				log = append(log, what)

				credEdits[name](l.cred)
			case "in place":
				name := vk.Pick(rt, "change", "custom", "ld", "di", "reset")
				what += " " + name + " of " + l.form
				log = append(log, what)

				now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

				want := objOf(rt, vk.MustJSON(l.cred.ToRawJSON()))
				delete(want, "proof")

				switch name {
				case "custom":
					l.cred.SetCustomField("xcustom", "x")
					want["xcustom"] = "x"
				case "ld":
					_ = l.cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
						SignatureType: "Ed25519Signature2018", SignatureRepresentation: verifiable.SignatureJWS, KeyType: p.key.KMSType,
						ProofCreator: p.key.Creator(), VerificationMethod: p.kid, Created: &now,
					}, ldOpts()...)
				case "di":
					_ = l.cred.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{
						SigningKeyID: p.kid, ProofPurpose: "assertionMethod", CryptoSuite: "eddsa-rdfc-2022", Created: &now,
					}, diSigner(w, p.key))
				case "reset":
					l.cred.ResetProofs(nil)
				}

				got := objOf(rt, vk.MustJSON(l.cred.ToRawJSON()))
				delete(got, "proof")

				if d := vk.Diff(want, got); d != "" {
					rt.Fatalf("%v: changed besides: %s", log, d)
				}

				l.view = l.now(rt)
			case "derive":
				name := vk.Pick(rt, "derive", "create", "parse JSON", "unsecured", "signed")
				what += " " + name + " of " + l.form
				log = append(log, what)

				var (
					out *verifiable.Credential
					err error
				)

				switch name {
				case "create":
					out, err = verifiable.CreateCredential(l.cred.Contents(), customMembers(l.cred.ToRawJSON()))
				case "parse JSON":
					raw := l.cred.ToRawJSON()
					docs, was = append(docs, raw), append(was, vk.JS(raw))

					out, err = verifiable.ParseCredentialJSON(raw, parseOpts(verifiable.WithCredDisableValidation())...)
					if err != nil {
						rt.Fatalf("%v: the document ToRawJSON gives is no credential: %v\n%s", log, err, vk.JS(raw))
					}

					if d := vk.Diff(contentsView(l.cred.Contents()), contentsView(out.Contents())); d != "" {
						rt.Fatalf("%v: parsed again: %s", log, d)
					}
				case "unsecured":
					out, err = l.cred.CreateUnsecuredJWTVC(rapid.Bool().Draw(rt, "min"))
				case "signed":
					out, err = l.cred.CreateSignedJWTVC(rapid.Bool().Draw(rt, "min"), jwsAlg[p.key.Kind], p.key.Creator(), p.kid)
				}

				if err == nil {
					add(name+" of "+l.form, out)
				}
			}

			kinds[op] = true
			c.Class(what)

			for j, x := range live {
				if now := x.now(rt); now != x.view {
					rt.Fatalf("%v changed credential %d (%s)\nbefore %s\nafter  %s", log, j, x.form, x.view, now)
				}
			}

			for j, d := range docs {
				if vk.JS(d) != was[j] {
					rt.Fatalf("%v changed a document passed in: %s -> %s", log, was[j], vk.JS(d))
				}
			}
		}

		if steps > 2 && len(kinds) > 1 {
			c.NonTrivial(log, live[0].view)
		}

		c.Sample(map[string]any{"log": log})
	})
}

// watch keeps values that must stay as they are.
type watch struct {
	names []string
	vals  []any
	was   []string
}

func (w *watch) add(name string, v any) {
	w.names, w.vals, w.was = append(w.names, name), append(w.vals, v), append(w.was, watched(v))
}

func watched(v any) string {
	switch t := v.(type) {
	case []byte:
		return string(t)
	case []string:
		return strings.Join(t[:cap(t)], "\x00") // what lies behind the end is the caller's, too
	default:
		return vk.JS(v)
	}
}

func (w *watch) check(rt *rapid.T, what string) {
	for i, v := range w.vals {
		if now := watched(v); now != w.was[i] {
			rt.Fatalf("%s changed the %s passed in\nbefore %s\nafter  %s", what, w.names[i], w.was[i], now)
		}
	}
}

// roomy gives a list that has room behind its end.
func roomy(list []string) []string {
	buf := append(append([]string{}, list...), "kept", "kept")

	return buf[:len(list)]
}

// c16Ops do something with values of the caller, which they add to the watch list.
var c16Ops = map[string]func(rt *rapid.T, w *watch) (nonTrivial bool){
	"issue SD-JWT": func(rt *rapid.T, w *watch) bool {
		s := drawSD(rt)
		s.nonSD, s.always, s.recursive = roomy(s.nonSD), roomy(s.always), roomy(s.recursive)

		w.add("claims", s.claims)
		w.add("list of claims kept", s.nonSD)
		w.add("list of objects kept", s.always)
		w.add("list of recursive objects", s.recursive)

		hdr := jose.Headers{"typ": "JWT", "x": []any{map[string]any{"a": 1.0}}}
		w.add("headers", map[string]any(hdr))

		_, _ = issuer.New(s.iss, s.claims, hdr, joseSigner(s.key, s.kid, ""), s.opts()...)

		return len(s.claims) > 0
	},
	"show SD-JWT": func(rt *rapid.T, w *watch) bool {
		s := drawSD(rt)

		combined, err := s.issue(rt).Serialize(false)
		if err != nil {
			rt.Fatal(err)
		}

		cf := common.ParseCombinedFormatForIssuance(combined)
		names := roomy(sample(rt, "shown", append([]string{"other"}, cf.Disclosures...), 3))
		w.add("disclosures chosen", names)

		hdr := jose.Headers{"typ": "kb+jwt", "x": []any{map[string]any{"a": 1.0}}}
		info := &holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: "n", Audience: "a", IssuedAt: josejwt.NewNumericDate(time.Now())},
			Signer:  joseSigner(vk.GetKey(vk.EdDSA, "b"), "", ""), Headers: hdr,
		}
		w.add("binding headers", map[string]any(hdr))
		w.add("binding payload", &info.Payload)

		shown, _ := holder.CreatePresentation(combined, names, holder.WithHolderBinding(info))

		algs := roomy([]string{"EdDSA", "ES256", "ES384"})
		w.add("algorithms", algs)
		_, _ = verifier.Parse(shown, verifier.WithSignatureVerifier(s.world.Checker()), verifier.WithIssuerSigningAlgorithms(algs),
			verifier.WithHolderSigningAlgorithms(algs))

		return len(names) > 0
	},
	"sign JWT": func(rt *rapid.T, w *watch) bool {
		claims := vk.Obj(vk.JSONOpts{Depth: 3, MaxWidth: 3}, 1).Draw(rt, "claims")
		extra := vk.Obj(vk.JSONOpts{Depth: 2, MaxWidth: 2}, 0).Draw(rt, "extra")
		w.add("claims", claims)
		w.add("extra headers", extra)

		key := vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256), "c16")
		params := jwt.SignParameters{KeyID: "did:ex:aaa#k", JWTAlg: string(key.Kind), AdditionalHeaders: extra}

		tok, err := jwt.NewSigned(claims, params, key.Creator())
		if err == nil {
			_, _ = tok.Serialize(false)
		}

		un, err := jwt.NewUnsecured(claims)
		if err == nil {
			_, _ = un.Serialize(false)
		}

		return true
	},
	"Data Integrity": func(rt *rapid.T, w *watch) bool {
		world := vk.NewWorld()
		key := vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256), "c16")
		p := addParty(world, issDID, key)
		doc, _ := credGen{LD: true, Valid: true, NoSchema: true, Issuer: p.did}.draw(rt)
		in := vk.MustJSON(doc)
		w.add("document", in)

		now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		suite := map[vk.Kind]string{vk.EdDSA: "eddsa-rdfc-2022", vk.ES256: "ecdsa-rdfc-2019"}[key.Kind]
		so := &models.ProofOptions{Purpose: "assertionMethod", VerificationMethodID: p.kid, ProofType: models.DataIntegrityProof, SuiteType: suite, Created: now}
		w.add("signing options", so)

		out, err := diSigner(world, key).AddProof(in, so)
		if err != nil {
			return false
		}

		w.add("signed document", out)

		vo := &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof}
		w.add("checking options", vo)

		if err := diVerifier(world, vk.Loader()).VerifyProof(out, vo); err != nil {
			rt.Fatal(err)
		}

		return true
	},
	"proof contexts": func(rt *rapid.T, w *watch) bool {
		world := vk.NewWorld()
		p := addParty(world, issDID, vk.GetKey(vk.EdDSA, "c16"))
		doc, _ := credGen{LD: true, Valid: true, NoSchema: true, Issuer: p.did}.draw(rt)
		now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

		di := &verifiable.DataIntegrityProofContext{SigningKeyID: p.kid, CryptoSuite: "eddsa-rdfc-2022"}
		if rapid.Bool().Draw(rt, "created") {
			di.Created = &now
		}

		if rapid.Bool().Draw(rt, "purpose") {
			di.ProofPurpose = vk.Pick(rt, "which", "assertionMethod", "authentication")
		}

		ldc := &verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", SignatureRepresentation: verifiable.SignatureJWS,
			KeyType: p.key.KMSType, VerificationMethod: p.kid, Purpose: di.ProofPurpose, Created: di.Created}
		show := func() string { return fmt.Sprintf("%+v %+v", *di, *ldc) }
		before := show()
		ldc.ProofCreator = p.key.Creator()

		cred, err := verifiable.ParseCredentialJSON(doc, parseOpts(verifiable.WithDisabledProofCheck())...)
		if err != nil {
			rt.Fatal(err)
		}

		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(cred))
		if err != nil {
			rt.Fatal(err)
		}

		_ = cred.AddDataIntegrityProof(di, diSigner(world, p.key))
		_ = cred.AddLinkedDataProof(ldc, ldOpts()...)
		_ = vp.AddDataIntegrityProof(di, diSigner(world, p.key))
		_ = vp.AddLinkedDataProof(ldc, ldOpts()...)
		ldc.ProofCreator = nil

		if after := show(); after != before {
			rt.Fatalf("adding proofs changed the proof contexts: %s -> %s", before, after)
		}

		return true
	},
	"parse credential": func(rt *rapid.T, w *watch) bool {
		world := vk.NewWorld()
		p := addParty(world, issDID, vk.GetKey(vk.EdDSA, "c16"))
		vc := drawVPCred(rt, world, p, credGen{Valid: true, NoSchema: true}, vk.Pick(rt, "form", "plain", "ldp", "di", "jwt", "cwt", "sd"))

		text, err := vc.cred.MarshalJSON()
		if err != nil {
			rt.Fatal(err)
		}

		w.add("text", text)

		ctx := roomy([]string{vk.ExtContextURL})
		w.add("contexts", ctx)

		_, _ = verifiable.ParseCredential(text, parseOpts(verifiable.WithExternalJSONLDContext(ctx...), verifiable.WithBaseContextExtendedValidation(verifiable.V1ContextURI, ctx, ctx),
			verifiable.WithProofChecker(world.Checker()), verifiable.WithDataIntegrityVerifier(diVerifier(world, vk.Loader())))...)

		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(vc.cred))
		if err != nil {
			rt.Fatal(err)
		}

		vptext, err := vp.MarshalJSON()
		if err != nil {
			rt.Fatal(err)
		}

		w.add("presentation", vptext)

		_, _ = verifiable.ParsePresentation(vptext, vpOpts(
			verifiable.WithPresProofChecker(world.Checker()))...)

		return true
	},
	"derive BBS+": func(rt *rapid.T, w *watch) bool {
		key := vk.GetKey(vk.BBS, "c16")
		world := vk.NewWorld()
		world.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: key})

		doc, _ := credGen{LD: true, Valid: true, NoSchema: true}.draw(rt)
		doc = vk.CloneMap(doc)
		n := 0
		uniqueIDs(doc, &n)

		if _, ok := doc["id"]; !ok {
			doc["id"] = "urn:vc:c16"
		}

		doc["@context"] = append(asList(doc["@context"]), ctxBBS)

		cred, err := verifiable.ParseCredentialJSON(doc, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
		if err != nil {
			rt.Fatal(err)
		}

		signBBS(rt, cred, key, issDID+"#bbs")

		frame, _ := reveal(rt, doc, "issuer", "credentialSubject")
		frame["type"] = "VerifiableCredential"
		frame["@context"] = doc["@context"]
		frame["@explicit"] = true
		nonce := []byte("nonce")

		w.add("document", map[string]any(cred.ToRawJSON()))
		w.add("frame", frame)
		w.add("nonce", nonce)

		before := (&liveCred{cred: cred}).now(rt)

		derived, err := cred.GenerateBBSSelectiveDisclosure(frame, nonce, (&bbsSetup{w: world, key: key, vm: issDID + "#bbs"}).creator(), parseOpts()...)
		if err != nil {
			return false
		}

		shown := (&liveCred{cred: derived}).now(rt)

		derived.SetCustomField("xcustom", 1.0)

		if after := (&liveCred{cred: cred}).now(rt); after != before {
			rt.Fatalf("deriving changed the credential\nbefore %s\nafter  %s", before, after)
		}

		cred.SetCustomField("ycustom", map[string]any{})
		cred.ResetProofs(nil)
		derived.SetCustomField("xcustom", nil)

		_ = shown

		if strings.Contains((&liveCred{cred: derived}).now(rt), "ycustom") {
			rt.Fatalf("a change of the credential reached the derived one")
		}

		return true
	},
	"status": func(rt *rapid.T, w *watch) bool {
		s := newStatusWorld()
		entries := []statusEntry{}

		for range rapid.IntRange(1, 2).Draw(rt, "entries") {
			entries = append(entries, s.entry(rt))
		}

		cred := statusCredential(rt, entries)
		before := (&liveCred{cred: cred}).now(rt)
		_ = s.client().VerifyStatus(cred)

		if after := (&liveCred{cred: cred}).now(rt); after != before {
			rt.Fatalf("checking the status changed the credential\nbefore %s\nafter  %s", before, after)
		}

		return true
	},
	"domain linkage": func(rt *rapid.T, w *watch) bool {
		quietDIDConfig()

		world, keys := linkWorld(rt)
		cfg, _, _ := drawConfig(rt, "did:ex:aaa", "https://a.example", keys)
		w.add("configuration", cfg)
		_ = didconfigverifier.VerifyDIDAndDomain(cfg, "did:ex:aaa", "https://a.example", didconfigverifier.WithJSONLDDocumentLoader(vk.Loader()),
			didconfigverifier.WithVDRegistry(world))

		return true
	},
}

// TestC16_Inputs does things with values of the caller, which must stay as they are.
func TestC16_Inputs(t *testing.T) {
	ops := namesOf(c16Ops)

	vk.Check(t, "the operation has something to work on", 2500, 60000, func(rt *rapid.T, c *vk.Case) {
		name := rapid.SampledFrom(ops).Draw(rt, "op")
		w := &watch{}

		if c16Ops[name](rt, w) {
			c.NonTrivial(name, w.was)
		}

		c.Class(name)
		w.check(rt, name)
		c.Sample(map[string]any{"op": name, "inputs": w.names})
	})
}

// TestC16_Exchange presents and matches with shared definitions, credentials and presentations.
func TestC16_Exchange(t *testing.T) {
	vk.Check(t, "the definition selects something", 1200, 30000, func(rt *rapid.T, c *vk.Case) {
		creds := drawWallet(rt, peGen{v2: vk.Coin(rt, "v2", 3), forms: []string{"plain", "ld", "jwt", "sdjwt"}})
		d := peDefGen{}.draw(rt, creds)
		pd := d.definition(rt)

		if vk.Coin(rt, "limit", 2) {
			r := presexch.Required

			for _, desc := range pd.InputDescriptors {
				if desc.Constraints != nil {
					desc.Constraints.LimitDisclosure = &r
				}
			}
		}

		w := &watch{}
		w.add("definition", pd)

		var live []*liveCred

		wallet := walletOf(creds)
		for i, cred := range wallet {
			l := &liveCred{form: creds[i].form, cred: cred}
			l.view = l.now(rt)
			live = append(live, l)
		}

		check := func(what string) {
			w.check(rt, what)

			for i, l := range live {
				if now := l.now(rt); now != l.view {
					rt.Fatalf("%s changed credential %d (%s)\nbefore %s\nafter  %s\ndefinition %s", what, i, l.form, l.view, now, vk.JS(d.json()))
				}
			}

			for i := range wallet {
				if wallet[i] != live[i].cred {
					rt.Fatalf("%s changed the list of credentials", what)
				}
			}
		}

		var opts []presexch.MatchRequirementsOpt

		if vk.Coin(rt, "sd", 2) {
			opts = append(opts, presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(peCredOpts()...))
		}

		got, err := pd.MatchSubmissionRequirement(wallet, vk.Loader(), opts...)
		check("MatchSubmissionRequirement")

		if err == nil {
			editMatched(got, live)
			check("editing what MatchSubmissionRequirement gave")
		}

		vp, err := pd.CreateVP(wallet, vk.Loader())
		check("CreateVP")

		_, _, _ = pd.CreateVPArray(wallet, vk.Loader())
		check("CreateVPArray")

		c.Class("selected %v", err == nil)

		if err != nil {
			return
		}

		c.NonTrivial(vk.JS(d.json()), live[0].view)

		text, err := vp.MarshalJSON()
		if err != nil {
			rt.Fatal(err)
		}

		vp2, err := verifiable.ParsePresentation(text, vpOpts(verifiable.WithPresDisabledProofCheck())...)
		if err != nil {
			rt.Fatal(err)
		}

		sub := submissionOf(rt, vp)
		w.add("submission", sub)
		w.add("presentation", vp2.CustomFields)

		for _, cred := range vp2.Credentials() {
			l := &liveCred{form: "presented", cred: cred}
			l.view = l.now(rt)
			live = append(live, l)
		}

		wallet = append(wallet, vp2.Credentials()...)

		_, err = pd.Match([]*verifiable.Presentation{vp2}, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...),
			presexch.WithDisableSchemaValidation())
		check("Match")
		c.Class("matched %v", err == nil)

		_, _ = pd.Match([]*verifiable.Presentation{vp2}, vk.Loader(), presexch.WithCredentialOptions(peCredOpts()...),
			presexch.WithDisableSchemaValidation(), presexch.WithMergedSubmission(sub))
		check("Match with a submission")
	})
}

// editMatched changes the credentials made for a requirement that are not the wallet's own.
func editMatched(got []*presexch.MatchedSubmissionRequirement, live []*liveCred) {
	for _, g := range got {
		for _, desc := range g.Descriptors {
			for _, m := range desc.MatchedVCs {
				own := false
				for _, l := range live {
					own = own || l.cred == m
				}

				if !own {
					vandalise(m.ToRawJSON())
					vandaliseContents(m.Contents())
					m.SetCustomField("xcustom", map[string]any{})
				}
			}
		}

		editMatched(g.Nested, live)
	}
}

// TestC16_Regressions holds the histories that were found to go wrong.
func TestC16_Regressions(t *testing.T) {
	doc := func(v int) map[string]any {
		d := map[string]any{
			"@context": []any{verifiable.V1ContextURI, map[string]any{"x": "https://x.example/"}}, "type": []any{"VerifiableCredential"},
			"issuer": map[string]any{"id": "did:ex:aaa", "name": map[string]any{"en": "A"}}, "issuanceDate": "2020-01-01T00:00:00Z",
			"credentialSubject": map[string]any{"id": "did:ex:bbb", "x": []any{map[string]any{"y": "z"}}},
			"termsOfUse":        []any{map[string]any{"type": "T", "x": []any{"y"}}, map[string]any{"type": "U"}}, "evidence": []any{map[string]any{"x": "y"}},
			"proof": map[string]any{"type": "Ed25519Signature2018", "x": []any{"y"}},
		}

		if v == 2 {
			d["@context"].([]any)[0] = verifiable.V2ContextURI
			d["validFrom"] = d["issuanceDate"]
			delete(d, "issuanceDate")
		}

		return d
	}

	vk.Enum(t, "every history", func(t *testing.T, next func() *vk.Case) {
		for v := 1; v <= 2; v++ {
			for _, name := range namesOf(credEdits) {
				d := doc(v)

				cred, err := verifiable.ParseCredentialJSON(d, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
				if err != nil {
					t.Fatal(err)
				}

				before := vk.JS(cred.ToRawJSON()) + vk.JS(contentsView(cred.Contents()))
				credEdits[name](cred)

				if after := vk.JS(cred.ToRawJSON()) + vk.JS(contentsView(cred.Contents())); after != before {
					t.Errorf("editing %s changed the credential\nbefore %s\nafter  %s", name, before, after)
				}

				cred.SetCustomField("xcustom", 1.0)

				if vk.JS(d) != vk.JS(doc(v)) {
					t.Errorf("setting a custom field changed the document parsed: %s", vk.JS(d))
				}

				next().NonTrivial(v, name)
			}

			cred, err := verifiable.ParseCredentialJSON(doc(v), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
			if err != nil {
				t.Fatal(err)
			}

			when, _ := util.ParseTimeWrapper("2021-02-03T04:05:06Z")
			from, until := "issuanceDate", "expirationDate"

			if v == 2 {
				from, until = "validFrom", "validUntil"
			}

			for name, got := range map[string][]any{
				"issued":     {cred.WithModifiedIssued(when), from},
				"validFrom":  {cred.WithModifiedValidFrom(when), from},
				"expired":    {cred.WithModifiedExpired(when), until},
				"validUntil": {cred.WithModifiedValidUntil(when), until},
			} {
				want := doc(v)
				delete(want, "proof")
				want[got[1].(string)] = "2021-02-03T04:05:06Z"

				if d := vk.Diff(meaning(want), meaning(objOfJSON(t, got[0].(*verifiable.Credential).ToRawJSON()))); d != "" {
					t.Errorf("modified %s: %s", name, d)
				}

				next().NonTrivial(v, name)
			}
		}

		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c16"))
		p2 := addParty(w, "did:ex:other", vk.GetKey(vk.EdDSA, "c16b"))
		opts := &models.ProofOptions{Purpose: "assertionMethod", VerificationMethodID: p.kid, ProofType: models.DataIntegrityProof, SuiteType: "eddsa-rdfc-2022"}
		d := vk.MustJSON(map[string]any{"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential"}, "issuer": issDID})

		for _, by := range []party{p, p2} {
			opts.VerificationMethodID = by.kid

			out, err := diSigner(w, by.key).AddProof(d, opts)
			if err != nil || !strings.Contains(string(out), by.kid) {
				t.Errorf("signed with %s: %s %v", by.kid, out, err)
			}

			next().NonTrivial(by.kid)
		}
	})
}

func objOfJSON(t *testing.T, v any) map[string]any {
	t.Helper()

	var out map[string]any
	if err := jsonInto(v, &out); err != nil {
		t.Fatal(err)
	}

	return out
}

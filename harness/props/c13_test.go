package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/veraison/go-cose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/proof/testsupport"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

var _ = testsupport.NewKMSSigVerPair

const holderDID = "did:example:holder"

// vpOpts are the usual options to parse a presentation.
func vpOpts(extra ...verifiable.PresentationOpt) []verifiable.PresentationOpt {
	return append([]verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(vk.Loader())}, extra...)
}

// vpCred is a credential to be put into a presentation.
type vpCred struct {
	form    string
	cred    *verifiable.Credential
	raw     []byte         // as serialized
	doc     map[string]any // as it reads
	version int
}

// drawVPCred makes a credential in one of the forms a presentation can carry.
func drawVPCred(rt *rapid.T, w *vk.World, p party, g credGen, forms ...string) vpCred {
	g.Issuer, g.SingleSub = p.did, true
	form := vk.Pick(rt, "credential form", forms...)

	if form == "ldp" || form == "di" {
		g.LD = true
	}

	doc, v := g.draw(rt)
	out := vpCred{form: form, version: v}

	var err error

	out.cred, err = verifiable.ParseCredential(mustJSON(rt, doc), parseOpts(verifiable.WithDisabledProofCheck())...)
	if err != nil {
		rt.Fatalf("credential: %v\n%s", err, vk.JS(doc))
	}

	out.doc = doc

	switch form {
	case "plain":
	case "ldp":
		doc["@context"] = asList(doc["@context"])
		raw := signLD(rt, doc, c05VM{owner: p.did, id: p.kid, key: p.key})
		out.cred, err = verifiable.ParseCredential(raw, parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		out.doc = decodeObj(rt, raw)
	case "di":
		doc["@context"] = append(asList(doc["@context"]), diCtx)
		raw := signDI(rt, doc, c05VM{owner: p.did, id: p.kid, key: p.key}, w)
		out.cred, err = verifiable.ParseCredential(raw, parseOpts(verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader())))...)
		out.doc = decodeObj(rt, raw)
	case "jwt":
		out.cred, err = out.cred.CreateSignedJWTVC(rapid.Bool().Draw(rt, "minimize VC"), jwsAlg[p.key.Kind], p.key.Creator(), p.kid)
		out.doc = jwtForm(rt, doc)
	case "cwt":
		out.cred, err = out.cred.CreateSignedCOSEVC(coseAlg[p.key.Kind], p.key.Creator(), p.kid)
	case "sd":
		var tok string

		tok, err = out.cred.MakeSDJWT(joseSigner(p.key, p.kid, ""), p.kid, verifiable.MakeSDJWTWithVersion(
			vk.Pick(rt, "sdver", common.SDJWTVersionV2, common.SDJWTVersionV5)))
		if err == nil {
			out.cred, err = verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		}

		out.doc = nil
	}

	if err != nil {
		rt.Fatalf("making a %s credential: %v\n%s", form, err, vk.JS(doc))
	}

	if out.raw, err = out.cred.MarshalJSON(); err != nil {
		rt.Fatalf("serializing a %s credential: %v", form, err)
	}

	return out
}

// vpView is what a reader of a presentation sees.
func vpView(rt *rapid.T, p *verifiable.Presentation) map[string]any {
	var creds []any

	for i, c := range p.Credentials() {
		raw, err := c.MarshalJSON()
		if err != nil {
			rt.Fatalf("serializing credential %d of a presentation: %v", i, err)
		}

		v, _ := vk.DecodeJSON(raw)
		if o, ok := v.(map[string]any); ok {
			v = meaning(plainIssuer(o))
		}

		creds = append(creds, v)
	}

	var proofs []any
	for _, x := range p.Proofs {
		proofs = append(proofs, map[string]any(x))
	}

	custom := map[string]any{}
	for k, v := range p.CustomFields {
		custom[k] = v
	}

	return map[string]any{"id": p.ID, "holder": p.Holder, "types": p.Type, "contexts": p.Context, "inline contexts": p.CustomContext,
		"custom": custom, "credentials": creds, "proofs": proofs}
}

// vpDocView is the same of a JSON presentation document.
func vpDocView(doc map[string]any) map[string]any {
	str := func(k string) string { s, _ := doc[k].(string); return s }
	out := map[string]any{"id": str("id"), "holder": str("holder"), "custom": without(doc, "@context", "id", "type", "holder", "proof",
		"verifiableCredential"), "types": asList(doc["type"])}

	if o, ok := doc["holder"].(map[string]any); ok {
		out["holder"], _ = o["id"].(string)
	}

	var uris, inline, proofs, creds []any

	for _, c := range asList(doc["@context"]) {
		if _, ok := c.(string); ok {
			uris = append(uris, c)
		} else {
			inline = append(inline, c)
		}
	}

	for _, p := range asList(doc["proof"]) {
		proofs = append(proofs, p)
	}

	for _, c := range asList(doc["verifiableCredential"]) {
		if o, ok := c.(map[string]any); ok {
			c = meaning(plainIssuer(o))
		}

		creds = append(creds, c)
	}

	out["contexts"], out["inline contexts"], out["proofs"], out["credentials"] = uris, inline, proofs, creds

	return out
}

// drawVPDoc generates a presentation without proof.
func drawVPDoc(rt *rapid.T, creds []vpCred, ld bool) (map[string]any, int) {
	version := rapid.IntRange(1, 2).Draw(rt, "vp data model")

	if len(creds) > 0 {
		version = creds[0].version // object credentials of one data model in a presentation of the other clash
	}

	ctx := []any{credCtx[version], vk.ExtContextURL}
	if vk.Coin(rt, "inline context", 4) {
		ctx = append(ctx, map[string]any{"inlineTerm": "https://verif.example/inline#t"})
	}

	doc := map[string]any{"@context": ctx, "type": "VerifiablePresentation"}

	if rapid.Bool().Draw(rt, "vp types") {
		doc["type"] = []any{"VerifiablePresentation"}
		if rapid.Bool().Draw(rt, "vp type") {
			doc["type"] = []any{"VerifiablePresentation", vk.Pick(rt, "vpT", "T0", "T1")}
		}
	}

	if vk.Coin(rt, "vp id", 2) {
		doc["id"] = vk.URI().Draw(rt, "vp id")
	}

	switch vk.Pick(rt, "vp holder", "string", "string", "none", "object", "plain object") {
	case "string":
		doc["holder"] = holderDID
	case "object":
		doc["holder"] = map[string]any{"id": holderDID, "t3": vk.Word().Draw(rt, "holder name")}
	case "plain object":
		doc["holder"] = map[string]any{"id": holderDID}
	}

	g := credGen{LD: ld}
	for i := rapid.IntRange(0, 2).Draw(rt, "vp custom"); i > 0; i-- {
		if ld {
			doc[fmt.Sprintf("t%d", rapid.IntRange(0, 11).Draw(rt, "vp term"))] = g.value(rt, 2)
		} else {
			doc["x"+fieldName().Draw(rt, "vp member")] = g.value(rt, 2)
		}
	}

	var list []any

	for _, c := range creds {
		v, err := vk.DecodeJSON(c.raw)
		if err != nil {
			rt.Fatalf("serialized credential is no JSON: %s", c.raw)
		}

		list = append(list, v)
	}

	switch {
	case len(list) == 1 && rapid.Bool().Draw(rt, "single"):
		doc["verifiableCredential"] = list[0]
	case len(list) > 0:
		doc["verifiableCredential"] = list
	case vk.Coin(rt, "empty list", 3):
		doc["verifiableCredential"] = []any{}
	}

	return doc, version
}

// buildVP makes the presentation of a document, by parsing it or from its parts.
func buildVP(rt *rapid.T, doc map[string]any, creds []vpCred) *verifiable.Presentation {
	holderObj, _ := doc["holder"].(map[string]any)

	if rapid.Bool().Draw(rt, "parsed") || len(holderObj) > 1 {
		opt := []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck()}
		if rapid.Bool().Draw(rt, "no JSON-LD checks") {
			opt = append(opt, verifiable.WithDisabledJSONLDChecks())
		}

		vp, err := verifiable.ParsePresentation(mustJSON(rt, doc), vpOpts(opt...)...)
		if err != nil {
			rt.Fatalf("presentation refused: %v\n%s", err, vk.JS(doc))
		}

		return vp
	}

	var cs []*verifiable.Credential
	for _, c := range creds {
		cs = append(cs, c.cred)
	}

	now := rapid.IntRange(0, len(cs)).Draw(rt, "given at once")
	opts := []verifiable.CreatePresentationOpt{verifiable.WithCredentials(cs[:now]...)}

	view := vpDocView(doc)
	if asList(doc["@context"])[0] == verifiable.V2ContextURI {
		opts = append(opts, verifiable.WithBaseContext(verifiable.V2ContextURI))
	}

	vp, err := verifiable.NewPresentation(opts...)
	if err != nil {
		rt.Fatal(err)
	}

	vp.AddCredentials(cs[now:]...)

	for _, s := range view["contexts"].([]any)[1:] {
		vp.Context = append(vp.Context, s.(string))
	}

	vp.CustomContext, _ = view["inline contexts"].([]any)
	vp.ID, vp.Holder = view["id"].(string), view["holder"].(string)
	vp.Type = nil

	for _, s := range view["types"].([]any) {
		vp.Type = append(vp.Type, s.(string))
	}

	if m := view["custom"].(map[string]any); len(m) > 0 {
		vp.CustomFields = m
	}

	return vp
}

var vpForms = []string{"plain", "jwt", "jwt", "cwt", "sd"}

func checkVP(rt *rapid.T, what string, want map[string]any, vp *verifiable.Presentation) {
	if d := vk.Diff(vk.Norm(want), vk.Norm(vpView(rt, vp))); d != "" {
		rt.Fatalf("%s: presentation changed: %s\nwant %s\ngot  %s", what, d, vk.JS(want), vk.JS(vpView(rt, vp)))
	}
}

func vpShape(doc map[string]any, creds []vpCred) int {
	n := 0

	for _, k := range []string{"id", "holder"} {
		if doc[k] != nil {
			n++
		}
	}

	if len(vpDocView(doc)["custom"].(map[string]any)) > 0 {
		n++
	}

	return n + len(creds)
}

func TestC13_Formats(t *testing.T) {
	vk.Check(t, "at least one credential, and two of: id, holder, custom members, further credentials; distinct by document and format", 2600, 30000,
		func(rt *rapid.T, c *vk.Case) {
			w := vk.NewWorld()
			iss := addParty(w, issDID, vk.GetKey(rapid.SampledFrom(coseKinds).Draw(rt, "issuer alg"), "a"))

			var creds []vpCred

			g := credGen{SmallNums: true, Version: rapid.IntRange(1, 2).Draw(rt, "model")}
			for i := vk.Size(rt, "creds", 0, 3); i > 0; i-- {
				creds = append(creds, drawVPCred(rt, w, iss, g, vpForms...))
			}

			doc, v := drawVPDoc(rt, creds, false)

			format := vk.Pick(rt, "format", "json", "jwt", "jwt", "unsecured", "cwt", "cwt")
			if format == "json" && rapid.Bool().Draw(rt, "with proofs") {
				if ps := drawProofs(rt); len(ps) > 0 {
					doc["proof"] = ps
				}
			}

			vp := buildVP(rt, doc, creds)
			if ps := asList(doc["proof"]); len(ps) > 0 && len(vp.Proofs) == 0 {
				for _, p := range ps {
					vp.Proofs = append(vp.Proofs, p.(map[string]any))
				}
			}

			want := vpDocView(doc)
			checkVP(rt, "presentation made", want, vp)

			minimize := rapid.Bool().Draw(rt, "minimize VP")
			aud := rapid.SliceOfN(rapid.SampledFrom([]string{"did:example:v1", "https://v.example", "x"}), 0, 2).Draw(rt, "aud")

			hk := vk.GetKey(rapid.SampledFrom(coseKinds).Draw(rt, "holder alg"), "h")
			holder := addParty(w, holderDID, hk)

			hiddenHolder := doc["holder"] == nil
			opts := vpOpts(verifiable.WithPresProofChecker(w.Checker()))

			var in []byte

			form := ""
			secured := vp

			switch format {
			case "json":
				var err error

				if in, err = vp.MarshalJSON(); err != nil {
					rt.Fatalf("MarshalJSON: %v", err)
				}

				wantDoc := vk.CloneMap(doc)
				if l, ok := wantDoc["verifiableCredential"].([]any); ok && len(l) == 0 {
					delete(wantDoc, "verifiableCredential")
				}

				if d := vk.Diff(vk.Norm(vpNorm(wantDoc)), vk.Norm(vpNorm(decodeObj(rt, in)))); d != "" {
					rt.Fatalf("serialized presentation differs: %s\nwant %s\ngot  %s", d, vk.JS(doc), in)
				}

				opts = vpOpts(verifiable.WithPresDisabledProofCheck())
			case "unsecured":
				claims, err := vp.JWTClaims(aud, minimize)
				if err != nil {
					rt.Fatalf("claims: %v", err)
				}

				tok, err := claims.MarshalUnsecuredJWT()
				if err != nil {
					rt.Fatalf("unsecured: %v", err)
				}

				vpPayload(rt, payloadOf(tok), doc, aud, minimize)

				in = []byte(tok)
				opts = vpOpts(verifiable.WithPresDisabledProofCheck())
			case "jwt":
				var err error

				secured, err = vp.CreateJWTVP(aud, jwsAlg[hk.Kind], hk.Creator(), holder.kid, minimize)
				if err != nil {
					rt.Fatalf("CreateJWTVP: %v", err)
				}

				checkVP(rt, "signed presentation", want, secured)

				hdr, _, _, err := vk.SplitJWS(secured.JWT)
				if err != nil || hdr["alg"] != string(hk.Kind) || hdr["kid"] != holder.kid || !secured.IsJWT() || secured.IsCWT() {
					rt.Fatalf("token %s: %v", secured.JWT, err)
				}

				vpPayload(rt, payloadOf(secured.JWT), doc, aud, minimize)

				form = vk.Pick(rt, "form", "compact", "serialized")
				in = []byte(secured.JWT)

				if form == "serialized" {
					if in, err = json.Marshal(secured); err != nil {
						rt.Fatalf("MarshalJSON: %v", err)
					}

					vpEnvelope(rt, v, in, "application/vp-ld+jwt", secured.JWT)
				}
			case "cwt":
				var err error

				secured, err = vp.CreateCWTVP(aud, coseAlg[hk.Kind], hk.Creator(), holder.kid, minimize)
				if err != nil {
					rt.Fatalf("CreateCWTVP: %v", err)
				}

				checkVP(rt, "signed presentation", want, secured)

				if !secured.IsCWT() || secured.IsJWT() {
					rt.Fatalf("IsCWT %v", secured.IsCWT())
				}

				var (
					msg     cose.Sign1Message
					payload map[string]any
				)

				if err = msg.UnmarshalCBOR(secured.CWT.Raw); err == nil {
					err = cbor.Unmarshal(msg.Payload, &payload)
				}

				if err != nil {
					rt.Fatalf("no CWT: %v", err)
				}

				vpPayload(rt, payload, doc, aud, minimize)

				form = vk.Pick(rt, "form", "binary", "hex", "cbor", "serialized")
				in = secured.CWT.Raw

				switch {
				case form == "hex":
					in = []byte(hex.EncodeToString(in))
				case form == "cbor":
					if in, err = secured.MarshalCBOR(); err != nil {
						rt.Fatalf("MarshalCBOR: %v", err)
					}
				case form == "serialized" && v == 2:
					if in, err = json.Marshal(secured); err != nil {
						rt.Fatalf("MarshalJSON: %v", err)
					}

					vpEnvelope(rt, v, in, "application/vp-ld+cose", hex.EncodeToString(secured.CWT.Raw))
				}
			}

			// the original is as before
			if secured != vp {
				checkVP(rt, "original after signing", want, vp)

				if vp.IsJWT() || vp.IsCWT() {
					rt.Fatalf("signing changed the original")
				}
			}

			if rapid.Bool().Draw(rt, "no JSON-LD checks at the end") {
				opts = append(opts, verifiable.WithDisabledJSONLDChecks())
			}

			back, err := verifiable.ParsePresentation(in, opts...)
			if err != nil {
				rt.Fatalf("%s presentation refused (minimized %v, %s): %v\n%s\n%s", format, minimize, form, err, vk.JS(doc), in)
			}

			checkVP(rt, format+" parsed", want, back)

			if back.IsJWT() != (format == "jwt") || back.IsCWT() != (format == "cwt") {
				rt.Fatalf("form of the parsed presentation: JWT %v, CWT %v, made as %s", back.IsJWT(), back.IsCWT(), format)
			}

			if format == "jwt" && back.JWT != secured.JWT || format == "cwt" && string(back.CWT.Raw) != string(secured.CWT.Raw) {
				rt.Fatalf("the parsed presentation has another token")
			}

			raw1, err1 := secured.MarshalJSON()
			raw2, err2 := back.MarshalJSON()

			if err1 != nil || err2 != nil || vk.Diff(vpNorm(decodeAny(raw1)), vpNorm(decodeAny(raw2))) != "" && format != "unsecured" &&
				(format != "cwt" || v == 2) {
				rt.Fatalf("serialized again differently: %v %v\n%s\n%s", err1, err2, raw1, raw2)
			}

			// the credentials
			list, err := back.MarshalledCredentials()
			if err != nil || len(list) != len(creds) {
				rt.Fatalf("MarshalledCredentials: %v, %d", err, len(list))
			}

			for i, cr := range creds {
				got := back.Credentials()[i]
				if got.IsJWT() != cr.cred.IsJWT() || got.IsCWT() != cr.cred.IsCWT() || len(got.SDJWTDisclosures()) != len(cr.cred.SDJWTDisclosures()) {
					rt.Fatalf("credential %d has another form", i)
				}

				a, _ := vk.DecodeJSON(cr.raw)
				b, _ := vk.DecodeJSON(list[i])

				if cr.form != "plain" && vk.Diff(a, b) != "" {
					rt.Fatalf("credential %d serialized differently:\n%s\n%s", i, cr.raw, list[i])
				}

				if cr.doc != nil {
					checkSame(rt, fmt.Sprintf("credential %d", i), cr.doc, got)
				} else if d := vk.Diff(contentsView(cr.cred.Contents()), contentsView(got.Contents())); d != "" {
					rt.Fatalf("credential %d: contents %s", i, d)
				}

				opt := verifiable.WithProofChecker(w.Checker())
				if cr.form == "plain" {
					opt = verifiable.WithDisabledProofCheck()
				}

				if _, err := verifiable.ParseCredential(list[i], parseOpts(opt)...); err != nil {
					rt.Fatalf("credential %d does not verify any more: %v\n%s", i, err, list[i])
				}

				c.Class("credential %s", cr.form)
			}

			c.Class("%s %s", format, form)
			c.Class("%d credentials", len(creds))
			c.Class("data model %d", v)
			c.Class("holder missing %v", hiddenHolder)

			if len(creds) > 0 && vpShape(doc, creds) > 2 {
				c.NonTrivial(vk.JS(doc), format, form, minimize)
				c.Sample(string(in))
			}
		})
}

func decodeAny(b []byte) map[string]any {
	v, err := vk.DecodeJSON(b)
	if err != nil {
		return map[string]any{"not JSON": string(b)}
	}

	if m, ok := v.(map[string]any); ok {
		return m
	}

	return map[string]any{"text": v}
}

// vpNorm drops what serialization may choose: lists of one and their element are the same.
func vpNorm(doc map[string]any) map[string]any {
	out := map[string]any{}

	for k, v := range doc {
		switch k {
		case "@context":
			v = asList(v)
		case "type", "proof":
			if l, ok := v.([]any); ok && len(l) == 1 {
				v = l[0]
			}
		case "verifiableCredential":
			var l []any

			for _, c := range asList(v) {
				if o, ok := c.(map[string]any); ok {
					c = meaning(plainIssuer(o))
				}

				l = append(l, c)
			}

			v = l
		case "holder":
			if o, ok := v.(map[string]any); ok && len(o) == 1 && o["id"] != nil {
				v = o["id"]
			}
		}

		out[k] = v
	}

	return out
}

// vpPayload checks the registered claims and the vp claim.
func vpPayload(rt *rapid.T, payload, doc map[string]any, aud []string, minimize bool) {
	view := vpDocView(doc)
	want := map[string]any{}

	if view["holder"] != "" {
		want["iss"] = view["holder"]
	}

	if view["id"] != "" {
		want["jti"] = view["id"]
	}

	claims := without(payload, "vp")
	if len(aud) > 0 {
		want["aud"] = aud
		claims["aud"] = asList(claims["aud"])
	}

	if d := vk.Diff(vk.Norm(want), vk.Norm(claims)); d != "" {
		rt.Fatalf("registered claims disagree with the presentation: %s\nwant %s\ngot %s", d, vk.JS(want), vk.JS(claims))
	}

	var vp map[string]any

	switch x := payload["vp"].(type) {
	case map[string]any:
		vp = x
	case map[any]any:
		vp, _ = strMap(x).(map[string]any)
	default:
		rt.Fatalf("vp claim %T", x)
	}

	inner := vpNorm(vp)
	exp := vpNorm(doc)

	if exp["verifiableCredential"] == nil || len(asList(exp["verifiableCredential"])) == 0 {
		delete(exp, "verifiableCredential")
	}

	if minimize {
		delete(exp, "id")

		if o, ok := exp["holder"].(map[string]any); ok {
			exp["holder"] = without(o, "id")
		} else {
			delete(exp, "holder")
		}
	}

	if d := vk.Diff(vk.Norm(exp), vk.Norm(inner)); d != "" {
		rt.Fatalf("vp claim (minimized %v): %s\nwant %s\ngot  %s", minimize, d, vk.JS(exp), vk.JS(inner))
	}
}

func strMap(v any) any {
	switch x := v.(type) {
	case map[any]any:
		out := map[string]any{}
		for k, e := range x {
			out[fmt.Sprint(k)] = strMap(e)
		}

		return out
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = strMap(x[i])
		}

		return out
	}

	return v
}

func vpEnvelope(rt *rapid.T, version int, raw []byte, media, data string) {
	if version == 1 {
		if string(raw) != `"`+data+`"` {
			rt.Fatalf("serialized form %s", raw)
		}

		return
	}

	want := map[string]any{"@context": []any{verifiable.V2ContextURI}, "type": []any{"EnvelopedVerifiablePresentation"},
		"id": "data:" + media + "," + data}
	if d := vk.Diff(want, decodeObj(rt, raw)); d != "" {
		rt.Fatalf("enveloped form: %s: %s", d, raw)
	}
}

// TestC13_Embedded signs presentations with proofs of their own and sends them through JSON.
func TestC13_Embedded(t *testing.T) {
	vk.Check(t, "a presentation with at least one credential; distinct by document and kind of proof", 220, 4000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := vk.Pick(rt, "alg", vk.EdDSA, vk.ES256)
		iss := addParty(w, issDID, vk.GetKey(kind, "a"))
		holder := addParty(w, holderDID, vk.GetKey(kind, "h"))

		var creds []vpCred

		g := credGen{LD: true, Valid: true, NoSchema: true, Version: rapid.IntRange(1, 2).Draw(rt, "model")}
		for i := vk.Size(rt, "creds", 0, 2); i > 0; i-- {
			creds = append(creds, drawVPCred(rt, w, iss, g, "plain", "ldp", "di", "jwt", "cwt"))
		}

		doc, v := drawVPDoc(rt, creds, true)
		vp := buildVP(rt, doc, creds)
		suite := vk.Pick(rt, "suite", "ld", "di")
		now := time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC)

		var err error

		switch suite {
		case "ld":
			vp.Context = append(vp.Context, "https://w3id.org/security/suites/jws-2020/v1")
			err = vp.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "JsonWebSignature2020", KeyType: holder.key.KMSType,
				ProofCreator: holder.key.Creator(), SignatureRepresentation: verifiable.SignatureJWS, Created: &now,
				VerificationMethod: holder.kid, Challenge: "c", Domain: "d", Purpose: "authentication"}, ldOpts()...)
		default:
			if v == 1 {
				vp.Context = append(vp.Context, diCtx)
			}

			crypt := "ecdsa-rdfc-2019"
			if kind == vk.EdDSA {
				crypt = "eddsa-rdfc-2022"
			}

			err = vp.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: holder.kid, ProofPurpose: "authentication",
				CryptoSuite: crypt, Created: &now, Domain: "d", Challenge: "c"}, diSigner(w, holder.key))
		}

		if err != nil {
			rt.Fatalf("adding the proof: %v\n%s", err, vk.JS(doc))
		}

		want := vpView(rt, vp)

		raw, err := vp.MarshalJSON()
		if err != nil {
			rt.Fatalf("MarshalJSON: %v", err)
		}

		opts := vpOpts(verifiable.WithPresProofChecker(w.Checker()), verifiable.WithPresDataIntegrityVerifier(diVerifier(w, vk.Loader())),
			verifiable.WithPresExpectedDataIntegrityFields("authentication", "d", "c"))

		in := raw

		for i := 0; i < 2; i++ {
			back, err := verifiable.ParsePresentation(in, opts...)
			if err != nil {
				rt.Fatalf("presentation signed with %s refused (pass %d): %v\n%s", suite, i, err, in)
			}

			checkVP(rt, "signed presentation", want, back)

			if in, err = back.MarshalJSON(); err != nil {
				rt.Fatalf("MarshalJSON: %v", err)
			}

			if d := vk.Diff(vpNorm(decodeObj(rt, raw)), vpNorm(decodeObj(rt, in))); d != "" {
				rt.Fatalf("serialized again differently: %s\n%s\n%s", d, raw, in)
			}

			for i, cr := range back.Credentials() {
				b, _ := cr.MarshalJSON()
				o := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker()), verifiable.WithDataIntegrityVerifier(diVerifier(w, vk.Loader()))}

				if creds[i].form == "plain" {
					continue
				}

				if _, err := verifiable.ParseCredential(b, parseOpts(o...)...); err != nil {
					rt.Fatalf("%s credential does not verify any more: %v\n%s", creds[i].form, err, b)
				}
			}
		}

		for _, cr := range creds {
			c.Class("credential %s", cr.form)
		}

		c.Class("%s", suite)
		c.Class("%s", models.DataIntegrityProof+fmt.Sprint(v))

		if len(creds) > 0 {
			c.NonTrivial(vk.JS(doc), suite)
			c.Sample(string(raw))
		}
	})
}

// TestC13_Clone edits a clone, or the original, and looks at the other.
func TestC13_Clone(t *testing.T) {
	vk.Check(t, "the presentation has at least two of: credentials, proofs, custom members, inline context, types; distinct by (document, edits)",
		6000, 80000, func(rt *rapid.T, c *vk.Case) {
			w := vk.NewWorld()
			iss := addParty(w, issDID, vk.GetKey(vk.EdDSA, "a"))

			var creds []vpCred
			for i := vk.Size(rt, "creds", 0, 2); i > 0; i-- {
				creds = append(creds, drawVPCred(rt, w, iss, credGen{Version: 1}, "plain", "jwt"))
			}

			doc, _ := drawVPDoc(rt, creds, false)
			if ps := drawProofs(rt); len(ps) > 0 {
				doc["proof"] = ps
			}

			vp, err := verifiable.ParsePresentation(mustJSON(rt, doc), vpOpts(verifiable.WithPresDisabledProofCheck(),
				verifiable.WithDisabledJSONLDChecks())...)
			if err != nil {
				rt.Fatalf("presentation refused: %v\n%s", err, vk.JS(doc))
			}

			extra := "plain"

			switch vk.Pick(rt, "token", "none", "jwt", "cwt") {
			case "jwt":
				extra = "jwt"
				vp.JWT = "a.b.c"
			case "cwt":
				extra = "cwt"
				vp.CWT = &verifiable.VpCWT{
					Raw: []byte{1, 2, 3}, VPMap: map[string]any{"a": map[string]any{"b": []any{"c"}}},
					Message: &cose.Sign1Message{
						Headers: cose.Headers{
							RawProtected: []byte{4}, RawUnprotected: []byte{5},
							Protected:   cose.ProtectedHeader{cose.HeaderLabelAlgorithm: cose.AlgorithmEdDSA, cose.HeaderLabelKeyID: []byte("kid")},
							Unprotected: cose.UnprotectedHeader{"x": []any{[]byte{7}}, int64(9): map[any]any{"y": []byte{8}}},
						},
						Payload: []byte{6}, Signature: []byte{7},
					},
				}
			}

			full := func(p *verifiable.Presentation) string {
				m := vpView(rt, p)
				m["jwt"] = p.JWT

				if p.CWT != nil {
					m["cwt"], m["cwt map"] = p.CWT.Raw, p.CWT.VPMap
				}

				raw, err := p.MarshalJSON()
				if err != nil {
					rt.Fatalf("MarshalJSON: %v", err)
				}

				bin, err := p.MarshalCBOR()
				if err != nil {
					rt.Fatalf("MarshalCBOR: %v", err)
				}

				var cb any
				_ = cbor.Unmarshal(bin, &cb) // map order is not fixed

				out := vk.JS(m) + string(raw) + vk.JS(vk.Norm(strMap(cb)))
				if p.CWT != nil && p.CWT.Message != nil {
					out += fmt.Sprintf("%v", *p.CWT.Message)
				}

				return out
			}

			before := full(vp)
			clone := vp.Clone()

			if full(clone) != before {
				rt.Fatalf("the clone differs:\n%s\n%s", before, full(clone))
			}

			edited, kept := clone, vp
			if rapid.Bool().Draw(rt, "edit the original") {
				edited, kept = vp, clone
			}

			var done []string

			for i := vk.Size(rt, "edits", 1, 4); i > 0; i-- {
				op := vk.Pick(rt, "edit", "context", "inline", "types", "credentials", "append", "holder", "proof", "custom", "deep custom", "add", "token", "id")
				done = append(done, op)

				switch op {
				case "context":
					edited.Context[rapid.IntRange(0, len(edited.Context)-1).Draw(rt, "at")] = "edited:"
				case "inline":
					for _, x := range edited.CustomContext {
						x.(map[string]any)["edited"] = "edited:"
					}
				case "types":
					edited.Type[0] = "Edited"
					edited.Type = append(edited.Type, "More")
				case "credentials":
					if l := edited.Credentials(); len(l) > 0 {
						l[0] = l[len(l)-1]
					}
				case "append":
					edited.AddCredentials(drawVPCred(rt, w, iss, credGen{Version: 1, Plain: true}, "plain").cred)
				case "holder":
					edited.Holder = "did:example:edited"
				case "id":
					edited.ID = "urn:edited"
				case "proof":
					if len(edited.Proofs) > 0 {
						edited.Proofs[0]["created"] = "edited"
						edited.Proofs = edited.Proofs[:len(edited.Proofs)-1]
					}
				case "custom", "deep custom":
					for k, v := range edited.CustomFields {
						if op == "deep custom" && editDeep(v) {
							continue
						}

						edited.CustomFields[k] = "edited"
					}
				case "add":
					if edited.CustomFields == nil {
						edited.CustomFields = verifiable.CustomFields{}
					}

					edited.CustomFields["xadded"] = "edited"
				case "token":
					edited.JWT = "edited"
					if edited.CWT != nil {
						edited.CWT.Raw[0] = 99
						edited.CWT.VPMap["x"] = "y"
						editDeep(edited.CWT.VPMap)

						if m := edited.CWT.Message; m != nil {
							m.Payload[0] ^= 1
							m.Signature[0] ^= 1
							m.Headers.RawProtected[0] ^= 1
							m.Headers.Protected["edited"] = "edited"

							for _, v := range m.Headers.Protected {
								if b, ok := v.([]byte); ok && len(b) > 0 {
									b[0] ^= 1
								}
							}

							if l, ok := m.Headers.Unprotected["x"].([]any); ok {
								l[0].([]byte)[0] = 99
								l[0] = "edited"
							}

							if l, ok := m.Headers.Unprotected[int64(9)].(map[any]any); ok {
								l["y"].([]byte)[0] = 99
								l["z"] = "edited"
							}

							for k := range m.Headers.Unprotected {
								delete(m.Headers.Unprotected, k)
							}
						}
					}
				}
			}

			if got := full(kept); got != before {
				rt.Fatalf("edits %v of one reached the other:\n%s\n%s", done, before, got)
			}

			n := 0
			for _, on := range []bool{len(creds) > 0, doc["proof"] != nil, len(vp.CustomFields) > 0, len(vp.CustomContext) > 0, len(vp.Type) > 1} {
				if on {
					n++
				}
			}

			for _, d := range done {
				c.Class("%s", d)
			}

			c.Class("%s", extra)

			if n > 1 {
				c.NonTrivial(vk.JS(doc), strings.Join(done, ","), extra)
				c.Sample(strings.Join(done, ","))
			}
		})
}

// editDeep changes something below v.
func editDeep(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range vk.SortedKeys(x) {
			if editDeep(x[k]) {
				return true
			}
		}

		x["edited"] = "edited"

		return true
	case []any:
		if len(x) == 0 {
			return false
		}

		if !editDeep(x[0]) {
			x[0] = "edited"
		}

		return true
	}

	return false
}

package props

import (
	"encoding/json"
	"testing"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/veraison/go-cose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

var jwsAlg = map[vk.Kind]verifiable.JWSAlgorithm{
	vk.EdDSA: verifiable.EdDSA, vk.ES256: verifiable.ECDSASecp256r1, vk.ES384: verifiable.ECDSASecp384r1,
	vk.ES521: verifiable.ECDSASecp521r1, vk.ES256K: verifiable.ECDSASecp256k1, vk.RS256: verifiable.RS256, vk.PS256: verifiable.PS256,
}

var coseAlg = map[vk.Kind]cose.Algorithm{
	vk.EdDSA: cose.AlgorithmEdDSA, vk.ES256: cose.AlgorithmES256, vk.ES384: cose.AlgorithmES384,
	vk.RS256: cose.AlgorithmRS256, vk.PS256: cose.AlgorithmPS256,
}

var coseKinds = []vk.Kind{vk.EdDSA, vk.ES256, vk.ES384, vk.PS256, vk.RS256}

const issDID = "did:example:issuer"

// party is a DID with one key.
type party struct {
	did, kid string
	key      *vk.Key
}

func addParty(w *vk.World, did string, k *vk.Key) party {
	w.AddDID(did, vk.VM{Fragment: "k1", Key: k})

	return party{did: did, kid: did + "#k1", key: k}
}

func utcSeconds(rt *rapid.T, s string) string {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}

	return time.Unix(t.Unix(), 0).UTC().Format(time.RFC3339)
}

// jwtForm is the document as it reads after a trip through a JWT: dates at seconds in UTC.
func jwtForm(rt *rapid.T, doc map[string]any) map[string]any {
	out := map[string]any{}

	for k, v := range doc {
		switch k {
		case "issuanceDate", "validFrom", "expirationDate", "validUntil":
			out[k] = utcSeconds(rt, v.(string))
		case "issuer":
			if o, ok := v.(map[string]any); ok && len(o) == 1 {
				out[k] = o["id"]

				break
			}

			out[k] = v
		default:
			out[k] = v
		}
	}

	return out
}

func plainIssuer(doc map[string]any) map[string]any {
	if o, ok := doc["issuer"].(map[string]any); ok && len(o) == 1 {
		out := without(doc)
		out["issuer"] = o["id"]

		return out
	}

	return doc
}

func drawSecured(rt *rapid.T, issuer string, needFrom bool) (map[string]any, int, *verifiable.Credential) {
	doc, v := credGen{Issuer: issuer, SingleSub: true}.draw(rt)
	if needFrom && doc["issuanceDate"] == nil && doc["validFrom"] == nil {
		doc["validFrom"] = timeText(rt, "from", false, true)
	}

	var (
		cred *verifiable.Credential
		err  error
	)

	if rapid.Bool().Draw(rt, "built") {
		cred, err = verifiable.CreateCredential(toContents(rt, doc), customOf(doc))
	} else {
		if vk.Coin(rt, "embedded proofs", 4) {
			if ps := drawProofs(rt); len(ps) > 0 {
				doc["proof"] = ps
			}
		}

		cred, err = verifiable.ParseCredential(mustJSON(rt, doc), parseOpts(verifiable.WithDisabledProofCheck())...)
	}

	if err != nil {
		rt.Fatalf("credential: %v\n%s", err, vk.JS(doc))
	}

	return doc, v, cred
}

func checkSame(rt *rapid.T, what string, want map[string]any, cred *verifiable.Credential) {
	raw := decodeObj(rt, mustJSON(rt, cred.ToRawJSON()))
	if d := vk.Diff(meaning(plainIssuer(want)), meaning(plainIssuer(raw))); d != "" {
		rt.Fatalf("%s: credential changed: %s\nwant %s\ngot  %s", what, d, vk.JS(want), vk.JS(raw))
	}

	if d := vk.Diff(refContents(plainIssuer(want)), contentsView(cred.Contents())); d != "" {
		rt.Fatalf("%s: contents changed: %s\nwant %s", what, d, vk.JS(want))
	}
}

func registeredClaims(rt *rapid.T, doc map[string]any, payload map[string]any) {
	want := map[string]any{}
	if id, ok := doc["id"]; ok {
		want["jti"] = id
	}

	switch i := doc["issuer"].(type) {
	case string:
		want["iss"] = i
	case map[string]any:
		want["iss"] = i["id"]
	}

	want["sub"] = doc["credentialSubject"].(map[string]any)["id"]

	for _, k := range []string{"issuanceDate", "validFrom"} {
		if s, ok := doc[k].(string); ok {
			t, _ := time.Parse(time.RFC3339, s)
			want["nbf"], want["iat"] = t.Unix(), t.Unix()
		}
	}

	for _, k := range []string{"expirationDate", "validUntil"} {
		if s, ok := doc[k].(string); ok {
			t, _ := time.Parse(time.RFC3339, s)
			want["exp"] = t.Unix()
		}
	}

	if d := vk.Diff(want, without(payload, "vc")); d != "" {
		rt.Fatalf("registered claims disagree with the credential: %s\nwant %s\ngot %s", d, vk.JS(want), vk.JS(payload))
	}
}

func TestC12_JWT(t *testing.T) {
	vk.Check(t, "the credential has at least two optional features", 2200, 30000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom(vk.JWTKinds).Draw(rt, "alg")
		p := addParty(w, issDID, vk.GetKey(kind, "a"))
		doc, v, cred := drawSecured(rt, p.did, false)
		minimize := rapid.Bool().Draw(rt, "minimize")

		signed, err := cred.CreateSignedJWTVC(minimize, jwsAlg[kind], p.key.Creator(), p.kid)
		if err != nil {
			rt.Fatalf("sign: %v\n%s", err, vk.JS(doc))
		}

		checkSame(rt, "signed credential", doc, signed)

		tok, err := signed.ToJWTString()
		if err != nil {
			rt.Fatalf("ToJWTString: %v", err)
		}

		hdr, _, _, err := vk.SplitJWS(tok)
		if err != nil {
			rt.Fatalf("no JWS: %v", err)
		}

		if hdr["alg"] != string(kind) || hdr["kid"] != p.kid {
			rt.Fatalf("headers %v", hdr)
		}

		registeredClaims(rt, doc, payloadOf(tok))

		want := jwtForm(rt, doc)

		raw, err := signed.MarshalJSON()
		if err != nil {
			rt.Fatalf("MarshalJSON: %v", err)
		}

		form := vk.Pick(rt, "form", "compact", "serialized", "wrapped", "universal")

		var in []byte

		switch form {
		case "compact":
			in = []byte(tok)
		case "serialized":
			in = raw
		case "wrapped":
			in = mustJSON(rt, map[string]any{"jwt": tok})
		default:
			u, e := signed.ToUniversalForm()
			if e != nil {
				rt.Fatalf("ToUniversalForm: %v", e)
			}

			in = mustJSON(rt, u)
			if string(in) != string(raw) {
				rt.Fatalf("ToUniversalForm %s, MarshalJSON %s", in, raw)
			}
		}

		// an enveloped credential is an object of its own type around a data URL
		if v == 2 && (form == "serialized" || form == "universal") {
			o := decodeObj(rt, raw)
			if o["id"] != "data:application/vc-ld+jwt,"+tok || vk.Diff(o["type"], []any{"EnvelopedVerifiableCredential"}) != "" ||
				vk.Diff(o["@context"], []any{verifiable.V2ContextURI}) != "" {
				rt.Fatalf("enveloped form %s", raw)
			}
		}

		back, err := verifiable.ParseCredential(in, parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		if err != nil {
			rt.Fatalf("signed credential refused (%s, minimized %v): %v\n%s\n%s", form, minimize, err, vk.JS(doc), in)
		}

		checkSame(rt, "parsed credential", want, back)

		if !back.IsJWT() || back.IsCWT() {
			rt.Fatalf("IsJWT %v", back.IsJWT())
		}

		if s, err := back.ToJWTString(); err != nil || s != tok {
			rt.Fatalf("ToJWTString gives other bytes: %v\n%s\n%s", err, s, tok)
		}

		raw2, err := json.Marshal(back)
		if err != nil || string(raw2) != string(raw) {
			rt.Fatalf("serialized form changed: %v\n%s\n%s", err, raw, raw2)
		}

		if alg, _ := back.JWTHeaders().Algorithm(); alg != string(kind) {
			rt.Fatalf("JWTHeaders alg %q", alg)
		}

		viaMap, err := verifiable.JWTVCToJSON([]byte(tok))
		if err != nil {
			rt.Fatalf("JWTVCToJSON: %v", err)
		}

		if d := vk.Diff(meaning(plainIssuer(want)), meaning(plainIssuer(decodeObj(rt, viaMap)))); d != "" {
			rt.Fatalf("JWTVCToJSON: %s", d)
		}

		c.Class("%s", kind)
		c.Class("%s", form)
		c.Class("minimized %v", minimize)
		c.Class("data model %d", v)

		if len(shape(doc)) > 2 {
			c.NonTrivial(vk.JS(doc), kind, form)
			c.Sample(tok)
		}
	})
}

func TestC12_Unsecured(t *testing.T) {
	vk.Check(t, "the credential has at least two optional features", 1500, 20000, func(rt *rapid.T, c *vk.Case) {
		doc, v, cred := drawSecured(rt, issDID, false)
		minimize := rapid.Bool().Draw(rt, "minimize")

		un, err := cred.CreateUnsecuredJWTVC(minimize)
		if err != nil {
			rt.Fatalf("create: %v\n%s", err, vk.JS(doc))
		}

		checkSame(rt, "unsecured credential", doc, un)

		tok, err := un.ToJWTString()
		if err != nil {
			rt.Fatalf("ToJWTString: %v", err)
		}

		hdr, _, sig, err := vk.SplitJWS(tok)
		if err != nil || hdr["alg"] != "none" || len(sig) != 0 {
			rt.Fatalf("unsecured token %s: %v %v %x", tok, err, hdr, sig)
		}

		registeredClaims(rt, doc, payloadOf(tok))

		back, err := verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithDisabledProofCheck())...)
		if err != nil {
			rt.Fatalf("unsecured credential refused: %v\n%s", err, vk.JS(doc))
		}

		checkSame(rt, "parsed credential", jwtForm(rt, doc), back)

		c.Class("minimized %v", minimize)
		c.Class("data model %d", v)

		if len(shape(doc)) > 2 {
			c.NonTrivial(vk.JS(doc), minimize)
			c.Sample(tok)
		}
	})
}

func TestC12_CWT(t *testing.T) {
	vk.Check(t, "the credential has at least two optional features", 1800, 25000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom(coseKinds).Draw(rt, "alg")
		p := addParty(w, issDID, vk.GetKey(kind, "a"))
		doc, v, cred := drawSecured(rt, p.did, false)

		signed, err := cred.CreateSignedCOSEVC(coseAlg[kind], p.key.Creator(), p.kid)
		if err != nil {
			rt.Fatalf("sign: %v\n%s", err, vk.JS(doc))
		}

		checkSame(rt, "signed credential", doc, signed)

		bin, err := signed.MarshalAsCWTLD()
		if err != nil {
			rt.Fatalf("MarshalAsCWTLD: %v", err)
		}

		var msg cose.Sign1Message
		if err := msg.UnmarshalCBOR(bin); err != nil {
			rt.Fatalf("no COSE_Sign1: %v", err)
		}

		var payload map[string]any
		if err := cbor.Unmarshal(msg.Payload, &payload); err != nil {
			rt.Fatalf("payload: %v", err)
		}

		claims := without(payload, "vc")
		if id, ok := doc["id"]; ok {
			claims["jti"] = id // CWT credentials carry no cti
		}

		registeredClaims(rt, doc, claims)

		if a, err := msg.Headers.Protected.Algorithm(); err != nil || a != coseAlg[kind] {
			rt.Fatalf("protected algorithm %v %v", a, err)
		}

		hx, err := signed.MarshalAsCWTLDHex()
		if err != nil {
			rt.Fatalf("MarshalAsCWTLDHex: %v", err)
		}

		raw, err := signed.MarshalJSON()
		if err != nil {
			rt.Fatalf("MarshalJSON: %v", err)
		}

		form := vk.Pick(rt, "form", "binary", "hex", "serialized")
		in := map[string][]byte{"binary": bin, "hex": []byte(hx), "serialized": raw}[form]

		if o, isObj := func() (map[string]any, bool) { v, _ := vk.DecodeJSON(raw); m, ok := v.(map[string]any); return m, ok }(); v == 2 {
			if !isObj || o["id"] != "data:application/vc-ld+cose,"+hx || vk.Diff(o["type"], []any{"EnvelopedVerifiableCredential"}) != "" {
				rt.Fatalf("enveloped form %s", raw)
			}
		} else if string(raw) != `"`+hx+`"` {
			rt.Fatalf("serialized form %s", raw)
		}

		back, err := verifiable.ParseCredential(in, parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		if err != nil {
			rt.Fatalf("signed credential refused (%s): %v\n%s\n%s", form, err, vk.JS(doc), hx)
		}

		checkSame(rt, "parsed credential", doc, back)

		if back.IsJWT() || !back.IsCWT() {
			rt.Fatalf("IsCWT %v", back.IsCWT())
		}

		if b, err := back.MarshalAsCWTLD(); err != nil || string(b) != string(bin) {
			rt.Fatalf("MarshalAsCWTLD gives other bytes: %v\n%x\n%x", err, b, bin)
		}

		if raw2, err := json.Marshal(back); err != nil || string(raw2) != string(raw) {
			rt.Fatalf("serialized form changed: %v\n%s\n%s", err, raw, raw2)
		}

		c.Class("%s", kind)
		c.Class("%s", form)
		c.Class("data model %d", v)

		if len(shape(doc)) > 2 {
			c.NonTrivial(vk.JS(doc), kind, form)
			c.Sample(hx)
		}
	})
}

// TestC12_Claims reads hand-made tokens whose registered claims complete or differ from the credential they carry.
func TestC12_Claims(t *testing.T) {
	vk.Check(t, "at least one claim differs from, or stands in for, a member of the credential", 2500, 40000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom(vk.JWTKinds).Draw(rt, "alg")
		p := addParty(w, issDID, vk.GetKey(kind, "a"))
		doc, v := credGen{Issuer: p.did, SingleSub: true}.draw(rt)
		from, until := "issuanceDate", "expirationDate"

		if v == 2 {
			from, until = "validFrom", "validUntil"
		}

		carried, want := vk.CloneMap(doc), vk.CloneMap(doc)
		claims := map[string]any{}
		differs, clash := 0, false

		if rapid.Bool().Draw(rt, "has sub") {
			claims["sub"] = doc["credentialSubject"].(map[string]any)["id"]
		}

		// id
		if rapid.Bool().Draw(rt, "has jti") {
			id := vk.URI().Draw(rt, "jti")
			if s, ok := doc["id"].(string); ok && vk.Coin(rt, "near id", 2) {
				id = vk.Near(rt, "jti near", s)
			}

			if id == "" {
				id = "urn:x:1"
			}

			claims["jti"], want["id"] = id, id

			if vk.Coin(rt, "no id", 3) {
				delete(carried, "id")
			}

			if !vk.Same(carried["id"], want["id"]) {
				differs++
			}
		}

		// dates
		date := func(rt *rapid.T, label string) int64 {
			return vk.Time().Draw(rt, label).Unix()
		}
		text := func(u int64) string { return time.Unix(u, 0).UTC().Format(time.RFC3339) }

		switch vk.Pick(rt, "start claims", "none", "nbf", "iat", "both", "both") {
		case "none":
		case "nbf":
			u := date(rt, "nbf")
			claims["nbf"], want[from] = u, text(u)
		case "iat":
			u := date(rt, "iat")
			claims["iat"], want[from] = u, text(u)
		default:
			u := date(rt, "nbf")
			claims["nbf"], claims["iat"], want[from] = u, u, text(u)
		}

		if rapid.Bool().Draw(rt, "has exp") {
			u := date(rt, "exp")
			claims["exp"], want[until] = u, text(u)
		}

		for _, m := range []string{from, until} {
			if _, ok := want[m]; ok && !vk.Same(want[m], doc[m]) {
				differs++

				if vk.Coin(rt, "drop "+m, 2) {
					delete(carried, m)
				}
			}
		}

		// issuer
		iss := p.did
		claims["iss"] = iss

		switch vk.Pick(rt, "issuer member", "same", "same", "none", "object without id", "other", "near", "url") {
		case "same":
		case "none":
			delete(carried, "issuer")
			want["issuer"] = iss
			differs++
		case "object without id":
			if o, ok := carried["issuer"].(map[string]any); ok && len(o) > 1 {
				delete(o, "id")
				differs++
			}
		case "other", "near":
			other := vk.Pick(rt, "other", "did:example:other", "did:example:issuer2", "did:example:issue", "did:example:Issuer",
				"did:example:issuer:a", "did:exampl:issuer", "did:example:issuer ", "did:example:issuer#k1")
			clash = true
			differs++

			if o, ok := carried["issuer"].(map[string]any); ok {
				o["id"] = other
			} else {
				carried["issuer"] = other
			}
		case "url":
			// an issuer that is no DID gives way to the claim
			other := "https://issuer.example/" + vk.Word().Draw(rt, "url")
			differs++

			if o, ok := carried["issuer"].(map[string]any); ok {
				o["id"] = other
			} else {
				carried["issuer"] = other
			}
		}

		payload := claims
		flat := vk.Coin(rt, "flat", 4)

		if flat {
			payload = vk.CloneMap(carried)
			for k, x := range claims {
				payload[k] = x
			}
		} else {
			payload["vc"] = carried
		}

		tok := vk.MakeJWS(map[string]any{"alg": string(kind), "kid": p.kid, "typ": "JWT"}, mustJSON(rt, payload), p.key)

		cred, err := verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		if clash {
			if err == nil {
				rt.Fatalf("token of %s accepted for a credential of another issuer\n%s", iss, vk.JS(payload))
			}

			c.Class("another issuer")
			c.NonTrivial(vk.JS(payload))

			return
		}

		if err != nil {
			rt.Fatalf("token refused: %v\n%s", err, vk.JS(payload))
		}

		checkSame(rt, "credential of the token "+vk.JS(payload), want, cred)

		viaMap, err := verifiable.JWTVCToJSON([]byte(tok))
		if err != nil {
			rt.Fatalf("JWTVCToJSON: %v", err)
		}

		if d := vk.Diff(meaning(plainIssuer(want)), meaning(plainIssuer(decodeObj(rt, viaMap)))); d != "" {
			rt.Fatalf("JWTVCToJSON: %s", d)
		}

		c.Class("flat %v", flat)
		c.Class("data model %d", v)
		c.Class("%d members from claims", differs)

		if differs > 0 {
			c.NonTrivial(vk.JS(payload))
			c.Sample(vk.JS(payload))
		}
	})
}

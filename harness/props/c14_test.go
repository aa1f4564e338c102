package props

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/fxamacker/cbor/v2"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

const (
	victimDID  = "did:example:issuer"
	otherDID   = "did:example:Issuer"
	malloryDID = "did:example:issuer2"
)

// ledger remembers everything that was ever signed, and by whom.
type ledger struct {
	w       *vk.World
	parties []party
	jws     map[string]string // signing input -> DID
	cwt     map[string]string // protected + payload -> DID
	docs    map[string]string // canonical document -> DID
	tokens  []string
	bins    [][]byte
	signed  []map[string]any // JSON documents with proof
}

func newLedger(rt *rapid.T) *ledger {
	l := &ledger{w: vk.NewWorld(), jws: map[string]string{}, cwt: map[string]string{}, docs: map[string]string{}}
	kind := vk.Pick(rt, "alg", vk.EdDSA, vk.ES256, vk.ES384)

	for i, did := range []string{victimDID, otherDID, malloryDID, holderDID} {
		l.parties = append(l.parties, addParty(l.w, did, vk.GetKey(kind, []string{"a", "b", "c", "h"}[i])))
	}

	return l
}

func (l *ledger) party(did string) party {
	for _, p := range l.parties {
		if p.did == did {
			return p
		}
	}

	panic(did)
}

// token signs a JWT.
func (l *ledger) token(hdr map[string]any, payload []byte, p party) string {
	tok := vk.MakeJWS(hdr, payload, p.key)
	l.noteToken(tok, p)

	return tok
}

func (l *ledger) noteToken(tok string, p party) {
	jws := strings.Split(tok, "~")[0]
	l.jws[jws[:strings.LastIndex(jws, ".")]] = p.did
	l.tokens = append(l.tokens, tok)
}

func (l *ledger) noteCWT(bin []byte, p party) {
	s, err := splitSign1(bin)
	if err != nil {
		panic(err)
	}

	l.cwt[string(s.protected)+"|"+string(s.payload)] = p.did
	l.bins = append(l.bins, bin)
}

func (l *ledger) noteDoc(rt *rapid.T, raw []byte, p party) {
	doc := decodeObj(rt, raw)
	l.docs[canon(rt, doc)] = p.did
	l.signed = append(l.signed, doc)
}

func canon(rt *rapid.T, doc map[string]any) string {
	s, err := canonical(without(doc, "proof"), "")
	if err != nil {
		return "no RDF: " + err.Error()
	}

	return s
}

// sign puts a proof of the party on the document or token content, in the given form.
func (l *ledger) sign(rt *rapid.T, form string, doc map[string]any, p party) any {
	switch form {
	case "ldp", "di":
		var raw []byte

		d := vk.CloneMap(doc)
		d["@context"] = asList(d["@context"])

		if form == "ldp" {
			raw = signLD(rt, d, c05VM{owner: p.did, id: p.kid, key: p.key})
		} else {
			d["@context"] = append(d["@context"].([]any), diCtx)
			raw = signDI(rt, d, c05VM{owner: p.did, id: p.kid, key: p.key}, l.w)
		}

		l.noteDoc(rt, raw, p)

		return decodeObj(rt, raw)
	}

	cred, err := verifiable.ParseCredential(mustJSON(rt, doc), parseOpts(verifiable.WithDisabledProofCheck())...)
	if err != nil {
		rt.Fatalf("credential: %v", err)
	}

	switch form {
	case "jwt":
		s, e := cred.CreateSignedJWTVC(rapid.Bool().Draw(rt, "minimize"), jwsAlg[p.key.Kind], p.key.Creator(), p.kid)
		if e != nil {
			rt.Fatal(e)
		}

		tok, _ := s.ToJWTString()
		l.noteToken(tok, p)

		return tok
	case "sd":
		tok, e := cred.MakeSDJWT(joseSigner(p.key, p.kid, ""), p.kid, verifiable.MakeSDJWTWithVersion(
			vk.Pick(rt, "sdver", common.SDJWTVersionV2, common.SDJWTVersionV5)))
		if e != nil {
			rt.Fatal(e)
		}

		l.noteToken(tok, p)

		return tok
	default:
		s, e := cred.CreateSignedCOSEVC(coseAlg[p.key.Kind], p.key.Creator(), p.kid)
		if e != nil {
			rt.Fatal(e)
		}

		bin, _ := s.MarshalAsCWTLD()
		l.noteCWT(bin, p)

		return bin
	}
}

// legit tells why a credential that was accepted should not have been ("" if it is all right).
func (l *ledger) legit(rt *rapid.T, cred *verifiable.Credential) string {
	iss := ""
	if cred.Contents().Issuer != nil {
		iss = cred.Contents().Issuer.ID
	}

	signer, ok := "", false

	switch {
	case cred.IsJWT():
		tok := cred.JWTEnvelope.JWT

		i := strings.LastIndex(tok, ".")
		if i < 0 {
			return "no token"
		}

		signer, ok = l.jws[tok[:i]]

		alone, err := verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
		if err != nil {
			return "the token alone does not parse: " + err.Error()
		}

		if d := vk.Diff(alone.ToRawJSON(), cred.ToRawJSON()); d != "" {
			return "other content than in its token: " + d
		}
	case cred.IsCWT():
		bin, _ := cred.MarshalAsCWTLD()

		s, err := splitSign1(bin)
		if err != nil {
			return err.Error()
		}

		signer, ok = l.cwt[string(s.protected)+"|"+string(s.payload)]
	default:
		doc := decodeObj(rt, mustJSON(rt, cred.ToRawJSON()))
		signer, ok = l.docs[canon(rt, doc)]

		if doc["proof"] == nil {
			return "no proof"
		}
	}

	switch {
	case !ok:
		return "nobody signed this"
	case signer != iss:
		return fmt.Sprintf("signed by %s, names %s as issuer", signer, iss)
	}

	return ""
}

// forge turns signed things into something nobody signed that way, or leaves them.
func (l *ledger) forge(rt *rapid.T, form string, item any, bare map[string]any) (any, string) {
	mal := l.party(malloryDID)

	switch x := item.(type) {
	case map[string]any:
		op := vk.Pick(rt, "forgery", "none", "change", "change", "drop proof", "null proof", "empty proof", "proof {}", "proof [{}]", "proof text",
			"foreign proof", "mallory's proof", "added mallory's proof", "stolen name", "other key", "issuer", "bare", "empty value")
		doc := vk.CloneMap(x)

		switch op {
		case "change":
			doc, op = mutate(rt, doc)
		case "drop proof":
			delete(doc, "proof")
		case "null proof":
			doc["proof"] = nil
		case "empty proof":
			doc["proof"] = []any{}
		case "proof {}":
			doc["proof"] = map[string]any{}
		case "proof [{}]":
			doc["proof"] = []any{map[string]any{}}
		case "proof text":
			doc["proof"] = "proof"
		case "empty value":
			p := asList(doc["proof"])[0].(map[string]any)
			for _, k := range []string{"jws", "proofValue"} {
				if p[k] != nil {
					p[k] = vk.Pick(rt, "empty", "", "z", "u", "..", "eyJhbGciOiJub25lIiwiYjY0IjpmYWxzZSwiY3JpdCI6WyJiNjQiXX0..")
				}
			}
		case "foreign proof":
			bare2 := vk.CloneMap(bare)
			bare2["id"] = "urn:another"
			f := l.sign(rt, form, bare2, l.party(victimDID)).(map[string]any)
			doc["proof"] = f["proof"]
		case "mallory's proof", "added mallory's proof", "stolen name":
			m := l.sign(rt, form, bare, mal).(map[string]any)
			// the same content signed by mallory: only its proof is used, so the content must not count as signed by her
			l.docs[canon(rt, m)] = victimDID

			if op == "added mallory's proof" {
				ps := []any{doc["proof"], m["proof"]}
				if rapid.Bool().Draw(rt, "first") {
					ps = []any{m["proof"], doc["proof"]}
				}

				doc["t11"], doc["proof"] = "changed", ps
				if rapid.Bool().Draw(rt, "unchanged") {
					delete(doc, "t11")
					doc["t11"] = "changed "
				}
			} else {
				doc["proof"] = m["proof"]
				l.docs[canon(rt, m)] = malloryDID
			}

			if op == "stolen name" {
				asList(m["proof"])[0].(map[string]any)["verificationMethod"] = l.party(victimDID).kid
			}
		case "other key":
			asList(doc["proof"])[0].(map[string]any)["verificationMethod"] = vk.Pick(rt, "vm", mal.kid, otherDID+"#k1", victimDID+"#k2", "", "#k1")
		case "issuer":
			doc["issuer"] = vk.Pick(rt, "new issuer", otherDID, malloryDID, "")
		case "bare":
			doc = vk.CloneMap(bare)
		}

		return doc, op
	case string:
		op := vk.Pick(rt, "forgery", "none", "payload", "payload", "none alg", "none alg, signed", "no signature", "zero signature", "other signature",
			"resigned", "resigned, victim's key id", "header", "strip issuer, resigned", "decoded", "two claims", "stolen body")
		parts := strings.SplitN(x, "~", 2)
		rest := ""

		if len(parts) == 2 {
			rest = "~" + parts[1]
		}

		hdr, payload, sig, err := vk.SplitJWS(parts[0])
		if err != nil {
			rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}

		claims := decodeObj(rt, payload)
		join := func(h map[string]any, p, s []byte) string {
			return vk.B64(vk.MustJSON(h)) + "." + vk.B64(p) + "." + vk.B64(s)
		}

		out := parts[0]

		switch op {
		case "payload":
			var m map[string]any

			m, op = mutate(rt, claims)
			if vk.JS(m) == vk.JS(claims) {
				return x, "none"
			}

			op = "payload " + op
			out = join(hdr, vk.MustJSON(m), sig)
		case "none alg":
			out = join(map[string]any{"alg": "none", "kid": hdr["kid"], "typ": hdr["typ"]}, payload, nil)
		case "none alg, signed":
			out = join(map[string]any{"alg": vk.Pick(rt, "none", "none", "None", "NONE", ""), "kid": hdr["kid"]}, payload, sig)
		case "no signature":
			out = join(hdr, payload, nil)
		case "zero signature":
			out = join(hdr, payload, make([]byte, len(sig)))
		case "other signature":
			s2, _ := mal.key.Sign([]byte(strings.Join(strings.Split(parts[0], ".")[:2], ".")))
			out = join(hdr, payload, s2)
			out = strings.Join(strings.Split(parts[0], ".")[:2], ".") + out[strings.LastIndex(out, "."):]
		case "resigned":
			hdr["kid"] = mal.kid
			out = l.token(hdr, payload, mal)
		case "resigned, victim's key id":
			p := mal
			out = l.token(hdr, payload, p)
			delete(l.jws, out[:strings.LastIndex(out, ".")])
		case "header":
			switch vk.Pick(rt, "header", "kid", "alg", "add", "drop kid") {
			case "kid":
				hdr["kid"] = vk.Pick(rt, "kid", mal.kid, otherDID+"#k1", "", "#k1", victimDID)
			case "alg":
				hdr["alg"] = vk.Pick(rt, "algh", "none", "HS256", "ES256", "EdDSA", "ES384", "RS256", "")
			case "add":
				hdr["added"] = "x"
			default:
				delete(hdr, "kid")
			}

			out = join(hdr, payload, sig)
			if in := out[:strings.LastIndex(out, ".")]; l.jws[in] != "" {
				return x, "none"
			}
		case "strip issuer, resigned":
			delete(claims, "iss")

			hdr["kid"] = mal.kid
			out = l.token(hdr, vk.MustJSON(claims), mal)
		case "two claims":
			if vc, ok := claims["vc"].(map[string]any); ok {
				vc["issuer"] = victimDID
			} else {
				claims["issuer"] = victimDID
			}

			claims["iss"] = malloryDID
			hdr["kid"] = mal.kid
			out = l.token(hdr, vk.MustJSON(claims), mal)
		case "decoded":
			if vc, ok := claims["vc"].(map[string]any); ok {
				m := vk.CloneMap(vc)
				m["issuer"] = victimDID

				return m, op
			}
		case "stolen body":
			p := strings.Split(l.token(map[string]any{"alg": hdr["alg"], "kid": mal.kid}, []byte(`{"iss":"`+malloryDID+`"}`), mal), ".")
			out = strings.Join([]string{p[0], strings.Split(parts[0], ".")[1], p[2]}, ".")
		}

		return out + rest, op
	case []byte:
		op := vk.Pick(rt, "forgery", "none", "payload", "no signature", "zero signature", "resigned", "resigned, victim's key id", "protected",
			"moved headers", "other signature", "flip", "strip issuer, resigned")

		s, err := splitSign1(x)
		if err != nil {
			rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}

		var prot map[any]any
		if err := cbor.Unmarshal(s.protected, &prot); err != nil {
			rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}

		var claims map[string]any
		if err := cbor.Unmarshal(s.payload, &claims); err != nil {
			rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}

		resign := func(kid string, note bool) {
			prot[int64(4)], prot[uint64(4)] = nil, nil
			delete(prot, int64(4))
			delete(prot, uint64(4))
			prot[uint64(4)] = []byte(kid)
			s.protected = mustCBOR(prot)
			s.sig = mustSign(rt, mal.key, sigStructure(s.protected, s.payload))

			if note {
				l.cwt[string(s.protected)+"|"+string(s.payload)] = malloryDID
			}
		}

		switch op {
		case "payload":
			m, how := mutate(rt, vk.Norm(strMap(anyMap(claims))).(map[string]any))
			s.payload = mustCBOR(m)
			op = "payload " + how
		case "no signature":
			s.sig = []byte{}
		case "zero signature":
			s.sig = make([]byte, len(s.sig))
		case "resigned":
			resign(mal.kid, true)
		case "resigned, victim's key id":
			resign(victimDID+"#k1", false)
		case "strip issuer, resigned":
			delete(claims, "iss")
			s.payload = mustCBOR(claims)
			resign(mal.kid, true)
		case "protected":
			prot["x"] = "y"
			s.protected = mustCBOR(prot)
		case "moved headers":
			s.unprotected = s.protected
			s.protected = []byte{}
		case "other signature":
			s.sig = mustSign(rt, mal.key, sigStructure(s.protected, s.payload))
		case "flip":
			i := rapid.IntRange(0, len(s.payload)-1).Draw(rt, "byte")
			s.payload = append([]byte{}, s.payload...)
			s.payload[i] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		}

		out, _ := s.encode()

		return out, op
	}

	panic("item")
}

func anyMap(m map[string]any) map[any]any {
	out := map[any]any{}
	for k, v := range m {
		out[k] = v
	}

	return out
}

// dress gives a credential one of the outer forms.
func dress(rt *rapid.T, item any, extra map[string]any) ([]byte, string) {
	env := func(media, data string) []byte {
		how := vk.Pick(rt, "encoding", "", "", "base64")
		if how == "base64" {
			data = base64.StdEncoding.EncodeToString([]byte(data))
			media += ";base64"
		}

		return vk.MustJSON(map[string]any{"@context": []any{credCtx[2]}, "type": []any{"EnvelopedVerifiableCredential"}, "id": "data:" + media + "," + data})
	}

	switch x := item.(type) {
	case map[string]any:
		switch f := vk.Pick(rt, "dress", "json", "json", "json", "unsecured", "enveloped", "wrapped"); f {
		case "json":
			return vk.MustJSON(x), f
		case "unsecured":
			return []byte(vk.B64([]byte(`{"alg":"none"}`)) + "." + vk.B64(vk.MustJSON(map[string]any{"vc": x})) + "."), f
		case "enveloped":
			return env(vk.Pick(rt, "media", "application/vc-ld+jwt", "application/vc-ld+sd-jwt", "application/vc-ld+cose", "application/json"), string(vk.MustJSON(x))), f
		default:
			m := vk.CloneMap(x)
			m["jwt"] = "x"

			return vk.MustJSON(m), f
		}
	case string:
		switch f := vk.Pick(rt, "dress", "compact", "compact", "quoted", "wrapped", "wrapped in another", "enveloped", "hex"); f {
		case "compact":
			return []byte(x), f
		case "quoted":
			return vk.MustJSON(x), f
		case "wrapped":
			return vk.MustJSON(map[string]any{"jwt": x}), f
		case "wrapped in another":
			m := vk.CloneMap(extra)
			m["jwt"] = x

			return vk.MustJSON(m), f
		case "enveloped":
			return env(vk.Pick(rt, "media", "application/vc-ld+jwt", "application/vc-ld+sd-jwt", "application/vc-ld+jwt", "application/vc-ld+cose"), x), f
		default:
			return []byte(hex.EncodeToString([]byte(x))), f
		}
	case []byte:
		switch f := vk.Pick(rt, "dress", "binary", "hex", "quoted", "enveloped"); f {
		case "binary":
			return x, f
		case "hex":
			return []byte(hex.EncodeToString(x)), f
		case "quoted":
			return vk.MustJSON(hex.EncodeToString(x)), f
		default:
			return env(vk.Pick(rt, "media", "application/vc-ld+cose", "application/vc-ld+cose", "application/vc-ld+jwt"), hex.EncodeToString(x)), f
		}
	}

	panic("dress")
}

func TestC14_Credentials(t *testing.T) {
	vk.Check(t, "something other than what was signed is given, or it is given in another outer form; distinct by (input, options)", 3000, 60000, func(rt *rapid.T, c *vk.Case) {
		l := newLedger(rt)
		form := vk.Pick(rt, "format", "ldp", "di", "jwt", "jwt", "cwt", "cwt", "sd")
		doc, _ := credGen{LD: true, Issuer: victimDID, SingleSub: true, Valid: true, NoSchema: true, NoStatus: true}.draw(rt)

		item := l.sign(rt, form, doc, l.party(victimDID))
		forged, op := l.forge(rt, form, item, doc)
		in, outer := dress(rt, forged, doc)

		verifier := vk.Pick(rt, "verifier", "all", "all", "all", "all", "all", "no checker", "no DI verifier", "some checkers", "some checkers")
		opts := []verifiable.CredentialOpt{}
		able := map[string]bool{"di": verifier != "no DI verifier"} // the forms there is a means to check for

		switch verifier {
		case "all", "no DI verifier":
			opts = append(opts, verifiable.WithProofChecker(l.w.Checker()))
			able["ldp"], able["jwt"], able["sd"], able["cwt"] = true, true, true, true
		case "some checkers":
			// a checker for each form by itself; those of another world know no keys
			if rapid.Bool().Draw(rt, "foreign first") {
				opts = append(opts, verifiable.WithProofChecker(vk.NewWorld().Checker()))
			}

			if able["ldp"] = rapid.Bool().Draw(rt, "ld checker"); able["ldp"] {
				opts = append(opts, verifiable.WithLDProofChecker(l.w.Checker()))
			}

			if able["jwt"] = rapid.Bool().Draw(rt, "jwt checker"); able["jwt"] {
				opts = append(opts, verifiable.WithJWTProofChecker(l.w.Checker()))
				able["sd"] = true
			}

			if able["cwt"] = rapid.Bool().Draw(rt, "cwt checker"); able["cwt"] {
				opts = append(opts, verifiable.WithCWTProofChecker(l.w.Checker()))
			}
		}

		if verifier != "no DI verifier" {
			opts = append(opts, verifiable.WithDataIntegrityVerifier(diVerifier(l.w, vk.Loader())))
		}

		if rapid.Bool().Draw(rt, "no validation") {
			opts = append(opts, verifiable.WithCredDisableValidation())
		}

		cred, err := verifiable.ParseCredential(in, parseOpts(opts...)...)

		plain := op == "none" && (outer == "json" || outer == "compact" || outer == "quoted" || outer == "wrapped" || outer == "binary" || outer == "hex" && form == "cwt") &&
			!(outer == "wrapped" && (form == "ldp" || form == "di"))

		switch {
		case err == nil:
			if bad := l.legit(rt, cred); bad != "" {
				rt.Fatalf("accepted: %s (%s credential, forgery %q, outer form %s, verifier %s)\n%s", bad, form, op, outer, verifier, in)
			}

			if !able[form] {
				rt.Fatalf("accepted without a means to check the proof (%s): %s", form, in)
			}
		case plain && able[form]:
			rt.Fatalf("untouched %s credential refused (%s): %v\n%s", form, outer, err, in)
		}

		c.Class("%s", form)
		c.Class("%s", outer)
		c.Class("%s", strings.SplitN(op, " /", 2)[0])
		c.Class("accepted %v", err == nil)

		if op != "none" || outer == "enveloped" || strings.HasPrefix(outer, "wrapped") {
			c.NonTrivial(string(in), verifier)
			c.Sample(fmt.Sprintf("%s: %s: %s (accepted %v)", form, op, in, err == nil))
		}
	})
}

func TestC14_Presentations(t *testing.T) {
	vk.Check(t, "the presentation carries a credential, and the presentation or a credential in it is not what was signed; distinct by (input, options)", 2600, 50000, func(rt *rapid.T, c *vk.Case) {
		l := newLedger(rt)
		hp := l.party(holderDID)
		version := rapid.IntRange(1, 2).Draw(rt, "model")
		g := credGen{LD: true, Issuer: victimDID, SingleSub: true, Valid: true, NoSchema: true, NoStatus: true, Version: version}

		// the credentials, some of them forged
		var (
			list   []any
			bad    []string
			token  []bool
			forged bool
		)

		form := vk.Pick(rt, "vp format", "jwt", "jwt", "cwt", "ldp", "di")
		// a bare token among the credentials has no meaning in data model 2
		bareOK := version == 1 || form == "jwt" || form == "cwt"

		n := vk.Size(rt, "credentials", 0, 2)
		for i := 0; i < n; i++ {
			cform := vk.Pick(rt, "credential format", "jwt", "cwt", "sd", "jwt", "plain")
			doc, _ := g.draw(rt)

			if cform == "plain" {
				list = append(list, doc)
				token = append(token, false)
				bad = append(bad, "")

				continue
			}

			item := l.sign(rt, cform, doc, l.party(victimDID))
			op := "none"

			if rapid.Bool().Draw(rt, "forge this") {
				item, op = l.forge(rt, cform, item, doc)
			}

			if op != "none" {
				forged = true
			}

			bad = append(bad, op)
			token = append(token, true)

			switch x := item.(type) {
			case map[string]any:
				list = append(list, x)
				token[i] = false
			case string:
				if version == 2 && (!bareOK || rapid.Bool().Draw(rt, "enveloped")) {
					media := "application/vc-ld+jwt"
					if strings.Contains(x, "~") {
						media = "application/vc-ld+sd-jwt"
					}

					list = append(list, map[string]any{"@context": []any{credCtx[2]}, "type": vk.Pick[any](rt, "envtype", "EnvelopedVerifiableCredential",
						[]any{"EnvelopedVerifiableCredential"}), "id": "data:" + media + "," + x})
				} else {
					list = append(list, x)
				}
			case []byte:
				if version == 2 && (!bareOK || rapid.Bool().Draw(rt, "enveloped")) {
					list = append(list, map[string]any{"@context": []any{credCtx[2]}, "type": "EnvelopedVerifiableCredential",
						"id": "data:application/vc-ld+cose," + hex.EncodeToString(x)})
				} else {
					list = append(list, hex.EncodeToString(x))
				}
			}
		}

		doc := map[string]any{"@context": []any{credCtx[version], vk.ExtContextURL}, "type": "VerifiablePresentation", "id": "urn:vp:1", "holder": holderDID,
			"t1": vk.Word().Draw(rt, "custom")}
		if n > 0 {
			doc["verifiableCredential"] = list
		}

		aud := vk.Word().Draw(rt, "aud")

		var item any

		jclaims := map[string]any{"iss": holderDID, "vp": doc}

		if rapid.Bool().Draw(rt, "has aud") {
			jclaims["aud"] = aud
		}

		if vk.Coin(rt, "has jti", 3) {
			jclaims["jti"] = "urn:vp:1"
		}

		if vk.Coin(rt, "has nonce", 4) {
			jclaims["nonce"] = vk.Word().Draw(rt, "nonce")
		}

		switch form {
		case "jwt":
			item = l.token(map[string]any{"alg": string(hp.key.Kind), "kid": hp.kid}, vk.MustJSON(jclaims), hp)
		case "cwt":
			claims := anyMap(jclaims)
			bin := signCWT(rt, claims, c05VM{owner: hp.did, id: hp.kid, key: hp.key})
			l.noteCWT(bin, hp)
			item = bin
		default:
			item = l.sign(rt, form, doc, hp)
		}

		op := "none"
		if vk.Coin(rt, "forge the presentation", 2) {
			if form == "ldp" || form == "di" {
				item, op = l.forgeVP(rt, form, item.(map[string]any), doc)
			} else {
				item, op = l.forge(rt, form, item, doc)
				if m, ok := item.(map[string]any); ok && op == "decoded" {
					item = without(m, "issuer")
				}
			}
		}

		in, outer := dressVP(rt, item)
		verifier := vk.Pick(rt, "verifier", "all", "all", "all", "all", "no checker", "no DI verifier")

		var opts []verifiable.PresentationOpt
		if verifier != "no checker" {
			opts = append(opts, verifiable.WithPresProofChecker(l.w.Checker()))
		}

		if verifier != "no DI verifier" {
			opts = append(opts, verifiable.WithPresDataIntegrityVerifier(diVerifier(l.w, vk.Loader())),
				verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""))
		}

		if rapid.Bool().Draw(rt, "no JSON-LD checks") {
			opts = append(opts, verifiable.WithDisabledJSONLDChecks())
		}

		vp, err := verifiable.ParsePresentation(in, vpOpts(opts...)...)

		what := func() string {
			return fmt.Sprintf("%s presentation, forgery %q, credentials %q, outer form %s, verifier %s\n%s", form, op, bad, outer, verifier, in)
		}

		switch {
		case err == nil:
			if why := l.legitVP(rt, vp, item); why != "" {
				rt.Fatalf("accepted: %s: %s", why, what())
			}

			for i, cr := range vp.Credentials() {
				if !cr.IsJWT() && !cr.IsCWT() {
					continue // finding: not checked
				}

				if why := l.legit(rt, cr); why != "" {
					rt.Fatalf("accepted with credential %d: %s: %s", i, why, what())
				}
			}

			needed := form != "di"
			for _, x := range token {
				needed = needed || x
			}

			if verifier == "no checker" && needed && op == "none" || verifier == "no DI verifier" && form == "di" {
				rt.Fatalf("accepted without a means to check the proof: %s", what())
			}
		case op == "none" && !forged && verifier == "all" && (outer == "json" || outer == "compact" || outer == "quoted" || outer == "binary" || outer == "hex" || outer == "enveloped"):
			rt.Fatalf("untouched presentation refused: %v: %s", err, what())
		}

		c.Class("%s", form)
		c.Class("%s", outer)
		c.Class("vp %s", strings.SplitN(op, " /", 2)[0])
		c.Class("accepted %v", err == nil)

		if n > 0 && (op != "none" || forged) {
			c.NonTrivial(string(in), verifier)
			c.Sample(fmt.Sprintf("%s %q %q: %s (accepted %v)", form, op, bad, in, err == nil))
		}
	})
}

// forgeVP forges a presentation with embedded proof.
func (l *ledger) forgeVP(rt *rapid.T, form string, item, bare map[string]any) (any, string) {
	doc := vk.CloneMap(item)
	mal := l.party(malloryDID)

	switch op := vk.Pick(rt, "vp forgery", "change", "change", "drop proof", "null proof", "empty proof", "proof [{}]", "proof {}", "foreign proof",
		"stolen name", "added proof", "bare", "other key"); op {
	case "change":
		m, how := mutate(rt, doc)

		return m, how
	case "drop proof":
		delete(doc, "proof")

		return doc, op
	case "null proof":
		doc["proof"] = nil

		return doc, op
	case "empty proof":
		doc["proof"] = []any{}

		return doc, op
	case "proof [{}]":
		doc["proof"] = []any{map[string]any{}}

		return doc, op
	case "proof {}":
		doc["proof"] = map[string]any{}

		return doc, op
	case "foreign proof", "added proof":
		b := vk.CloneMap(bare)
		b["t1"] = "another presentation"
		f := l.sign(rt, form, b, mal).(map[string]any)

		if op == "added proof" {
			doc["proof"] = []any{f["proof"], doc["proof"]}
			if rapid.Bool().Draw(rt, "last") {
				doc["proof"] = []any{item["proof"], f["proof"]}
			}
		} else {
			doc["proof"] = f["proof"]
		}

		return doc, op
	case "stolen name":
		m := l.sign(rt, form, bare, mal).(map[string]any)
		m["t1"] = "forged"
		asList(m["proof"])[0].(map[string]any)["verificationMethod"] = l.party(holderDID).kid

		return m, op
	case "other key":
		asList(doc["proof"])[0].(map[string]any)["verificationMethod"] = vk.Pick(rt, "vm", mal.kid, otherDID+"#k1", holderDID+"#k2", "", "#k1")
		doc["t1"] = "forged"

		return doc, op
	default:
		return vk.CloneMap(bare), op
	}
}

func (l *ledger) legitVP(rt *rapid.T, vp *verifiable.Presentation, item any) string {
	switch {
	case vp.IsJWT():
		if i := strings.LastIndex(vp.JWT, "."); i < 0 || l.jws[vp.JWT[:i]] == "" {
			return "nobody signed this token"
		}

		alone, err := verifiable.ParsePresentation([]byte(vp.JWT), vpOpts(verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks())...)
		if err != nil {
			return "the token alone does not parse: " + err.Error()
		}

		if d := vk.Diff(vk.Norm(vpView(rt, alone)), vk.Norm(vpView(rt, vp))); d != "" {
			return "other content than in its token: " + d
		}
	case vp.IsCWT():
		s, err := splitSign1(vp.CWT.Raw)
		if err != nil {
			return err.Error()
		}

		signer := l.cwt[string(s.protected)+"|"+string(s.payload)]
		if signer == "" {
			return "nobody signed this CWT"
		}

		if iss, _ := vp.CWT.VPMap["iss"].(string); iss != "" && (iss != signer || vp.Holder != iss) {
			return fmt.Sprintf("signed by %s, issuer %s, holder %s", signer, iss, vp.Holder)
		}
	default:
		raw, err := vp.MarshalJSON()
		if err != nil {
			return err.Error()
		}

		doc := decodeObj(rt, raw)

		// credentials in object form read back in their own words
		if m, ok := item.(map[string]any); ok && m["verifiableCredential"] != nil {
			doc["verifiableCredential"] = m["verifiableCredential"]
		}

		if l.docs[canon(rt, doc)] == "" {
			return "nobody signed this presentation"
		}

		if len(vp.Proofs) == 0 {
			return "no proof"
		}
	}

	return ""
}

func dressVP(rt *rapid.T, item any) ([]byte, string) {
	env := func(media, data string) []byte {
		return vk.MustJSON(map[string]any{"@context": []any{credCtx[2]}, "type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:" + media + "," + data})
	}

	switch x := item.(type) {
	case map[string]any:
		switch f := vk.Pick(rt, "vp dress", "json", "json", "json", "unsecured", "enveloped as token"); f {
		case "json":
			return vk.MustJSON(x), f
		case "unsecured":
			return []byte(vk.B64([]byte(`{"alg":"none"}`)) + "." + vk.B64(vk.MustJSON(map[string]any{"vp": x})) + "."), f
		default:
			return env("application/vp-ld+jwt", string(vk.MustJSON(x))), f
		}
	case string:
		switch f := vk.Pick(rt, "vp dress", "compact", "quoted", "enveloped", "enveloped wrongly"); f {
		case "compact":
			return []byte(x), f
		case "quoted":
			return vk.MustJSON(x), f
		case "enveloped":
			return env("application/vp-ld+jwt", x), f
		default:
			return env(vk.Pick(rt, "media", "application/vp-ld+cose", "application/vc-ld+jwt", "application/json"), x), f
		}
	case []byte:
		switch f := vk.Pick(rt, "vp dress", "binary", "hex", "quoted", "enveloped"); f {
		case "binary":
			return x, f
		case "hex":
			return []byte(hex.EncodeToString(x)), f
		case "quoted":
			return vk.MustJSON(hex.EncodeToString(x)), f
		default:
			return env("application/vp-ld+cose", hex.EncodeToString(x)), f
		}
	}

	panic("dress")
}

// TestC14_HolderCheck compares the check of self-asserted credentials with its rule.
func TestC14_HolderCheck(t *testing.T) {
	vk.Check(t, "some credential is secured by a presenter; distinct by document", 6000, 60000, func(rt *rapid.T, c *vk.Case) {
		dids := []string{"did:example:a", "did:example:b", "did:example:c"}
		did := func(label string) string { return rapid.SampledFrom(dids).Draw(rt, label) }
		prf := func(label string) map[string]any {
			return map[string]any{"type": "Ed25519Signature2018", "proofPurpose": "assertionMethod", "created": "2020-01-01T00:00:00Z",
				"verificationMethod": did(label) + "#" + vk.Pick(rt, "frag", "k1", "k2"), "proofValue": "zabc"}
		}
		prfs := func(label string, lo int) []any {
			var out []any
			for i := rapid.IntRange(lo, 2).Draw(rt, label); i > 0; i-- {
				out = append(out, prf(label+"vm"))
			}

			return out
		}
		of := func(p any) string { return strings.Split(p.(map[string]any)["verificationMethod"].(string), "#")[0] }

		vpProofs := prfs("vp proofs", 0)
		doc := map[string]any{"@context": []any{credCtx[1]}, "type": "VerifiablePresentation"}

		holder := ""
		if !vk.Coin(rt, "no holder", 3) {
			holder = did("holder")
			doc["holder"] = holder

			if rapid.Bool().Draw(rt, "object") {
				doc["holder"] = map[string]any{"id": holder}
			}
		}

		if len(vpProofs) > 0 {
			doc["proof"] = vpProofs
		}

		presenters := map[string]bool{}
		for _, p := range vpProofs {
			presenters[of(p)] = true
		}

		var list []any

		subjects := map[string]bool{}
		self, bad := false, false

		for i := vk.Size(rt, "creds", 0, 3); i > 0; i-- {
			iss, sub := did("issuer"), "did:example:sub"

			if vk.Coin(rt, "other subject", 6) {
				sub = "did:example:sub2"
			}

			subjects[sub] = true
			cr := map[string]any{"@context": []any{credCtx[1]}, "type": []any{"VerifiableCredential"}, "issuer": iss, "issuanceDate": "2020-01-01T00:00:00Z",
				"credentialSubject": map[string]any{"id": sub}}

			if rapid.Bool().Draw(rt, "issuer object") {
				cr["issuer"] = map[string]any{"id": iss, "name": "x"}
			}

			ps := prfs("proofs", 0)
			if len(ps) > 0 {
				cr["proof"] = ps
			}

			for _, p := range ps {
				if presenters[of(p)] {
					self = true
					bad = bad || holder != iss
				}
			}

			list = append(list, cr)
		}

		if len(list) > 0 {
			doc["verifiableCredential"] = list
		}

		bad = bad && len(subjects) == 1

		check := rapid.Bool().Draw(rt, "check")
		_, err := verifiable.ParsePresentation(mustJSON(rt, doc), vpOpts(verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(),
			verifiable.WithPresHolderCheck(check))...)

		if want := !(bad && check); want != (err == nil) {
			rt.Fatalf("accepted %v (%v), expected %v: %s", err == nil, err, want, vk.JS(doc))
		}

		c.Class("self-asserted %v, refused %v", self, err != nil)

		if self {
			c.NonTrivial(vk.JS(doc), check)
			c.Sample(vk.JS(doc))
		}
	})
}

// TestC14_Findings probes what is known not to be checked.
func TestC14_Findings(t *testing.T) {
	w := vk.NewWorld()
	holder := addParty(w, holderDID, vk.GetKey(vk.EdDSA, "h"))
	mal := addParty(w, malloryDID, vk.GetKey(vk.EdDSA, "c"))
	ctx := []any{credCtx[1], "https://w3id.org/security/suites/jws-2020/v1"}
	accepted := func(in []byte) bool {
		_, err := verifiable.ParsePresentation(in, vpOpts(verifiable.WithPresProofChecker(w.Checker()))...)

		return err == nil
	}
	jws := func(p party, payload map[string]any) []byte {
		return []byte(vk.MakeJWS(map[string]any{"alg": "EdDSA", "kid": p.kid}, vk.MustJSON(payload), p.key))
	}
	embedded := func(p party, doc map[string]any) []byte {
		now := time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC)
		vp, err := verifiable.ParsePresentation(vk.MustJSON(doc), vpOpts(verifiable.WithPresDisabledProofCheck())...)

		if err == nil {
			err = vp.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "JsonWebSignature2020", KeyType: p.key.KMSType,
				ProofCreator: p.key.Creator(), SignatureRepresentation: verifiable.SignatureJWS, Created: &now, VerificationMethod: p.kid}, ldOpts()...)
		}

		if err != nil {
			t.Fatal(err)
		}

		b, _ := json.Marshal(vp)

		return b
	}

	vp := func(more map[string]any) map[string]any {
		m := map[string]any{"@context": ctx, "type": "VerifiablePresentation", "holder": holderDID}
		for k, v := range more {
			m[k] = v
		}

		return m
	}

	forged := map[string]any{"@context": []any{credCtx[1]}, "type": []any{"VerifiableCredential"}, "issuer": victimDID, "issuanceDate": "2020-01-01T00:00:00Z",
		"credentialSubject": map[string]any{"id": holderDID}, "proof": map[string]any{"type": "JsonWebSignature2020", "created": "2020-01-01T00:00:00Z",
			"proofPurpose": "assertionMethod", "verificationMethod": victimDID + "#k1", "jws": "eyJhbGciOiJFZERTQSIsImI2NCI6ZmFsc2UsImNyaXQiOlsiYjY0Il19..AAAA"}}

	vk.Known(t, "vp-jwt-holder-unbound", func() bool {
		return accepted(jws(mal, map[string]any{"iss": holderDID, "vp": vp(nil)})) || accepted(jws(mal, map[string]any{"vp": vp(nil)}))
	})
	vk.Known(t, "vp-embedded-holder-unbound", func() bool { return accepted(embedded(mal, vp(nil))) })
	vk.Known(t, "vp-nested-json-unchecked", func() bool {
		return accepted(jws(holder, map[string]any{"iss": holderDID, "vp": vp(map[string]any{"verifiableCredential": []any{forged}})}))
	})
}

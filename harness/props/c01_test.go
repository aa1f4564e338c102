package props

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/json"
	"strings"
	"testing"

	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/spi/kms"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// jwtCase is one signed token together with everything needed to check it.
type jwtCase struct {
	kind   vk.Kind
	key    *vk.Key
	did    string
	kid    string
	claims map[string]any
	hdr    jose.Headers
	world  *vk.World
	token  string
}

func drawClaims(rt *rapid.T) map[string]any {
	claims := vk.Obj(vk.JSONOpts{Depth: 2}, 0).Draw(rt, "claims")

	if vk.Coin(rt, "registered", 2) {
		claims["sub"] = vk.Str().Draw(rt, "sub")
		claims["iat"] = rapid.Int64Range(0, 1<<40).Draw(rt, "iat")
	}

	if vk.Coin(rt, "bignum", 3) {
		claims["big"] = rapid.SampledFrom([]any{
			int64(9007199254740993), uint64(18446744073709551615), int64(-9223372036854775808), int64(9007199254740992),
		}).Draw(rt, "bigv")
	}

	return claims
}

func drawJWT(rt *rapid.T) *jwtCase {
	c := &jwtCase{}
	c.kind = rapid.SampledFrom(vk.JWTKinds).Draw(rt, "kind")
	c.key = vk.GetKey(c.kind, vk.Pick(rt, "key", "a", "b"))
	c.did = "did:example:" + vk.Word().Draw(rt, "did")
	frag := vk.Word().Draw(rt, "frag")
	c.kid = c.did + "#" + frag
	c.claims = drawClaims(rt)

	if vk.Coin(rt, "iss", 2) {
		c.claims["iss"] = c.did
	}

	if vk.Coin(rt, "hdrs", 2) {
		c.hdr = jose.Headers{}

		if typ := vk.Pick(rt, "typ", "", "JWT", "openid4vci-proof+jwt", "vc+sd-jwt"); typ != "" {
			c.hdr["typ"] = typ
		}

		if vk.Coin(rt, "cty", 3) {
			c.hdr["cty"] = "application/" + vk.Word().Draw(rt, "ctyv")
		}

		if vk.Coin(rt, "custom", 2) {
			c.hdr["x-"+vk.Word().Draw(rt, "hn")] = vk.JSON(vk.JSONOpts{Depth: 1}).Draw(rt, "hv")
		}
	}

	c.world = vk.NewWorld()
	// the DID has a second key of the same kind and one of another kind
	other := vk.EdDSA
	if c.kind == vk.EdDSA {
		other = vk.ES256
	}

	c.world.AddDID(c.did,
		vk.VM{Fragment: "zz-second", Key: vk.GetKey(c.kind, "c")},
		vk.VM{Fragment: frag, Key: c.key},
		vk.VM{Fragment: "zz-other", Key: vk.GetKey(other, "o")})
	c.world.AddDID("did:example:zz-attacker", vk.VM{Fragment: frag, Key: vk.GetKey(c.kind, "c")})

	return c
}

func (c *jwtCase) sign(rt *rapid.T) {
	var in any = c.claims

	switch vk.Pick(rt, "claimsas", "map", "bytes", "string", "raw") {
	case "bytes":
		in = vk.MustJSON(c.claims)
	case "string":
		in = string(vk.MustJSON(c.claims))
	case "raw":
		in = json.RawMessage(vk.MustJSON(c.claims))
	}

	tok, err := jwt.NewSigned(in, jwt.SignParameters{KeyID: c.kid, JWTAlg: string(c.kind), AdditionalHeaders: c.hdr}, c.key.Creator())
	if err != nil {
		rt.Fatalf("NewSigned(%s): %v", vk.JS(c.claims), err)
	}

	s, err := tok.Serialize(false)
	if err != nil {
		rt.Fatalf("Serialize: %v", err)
	}

	c.token = s
}

func (c *jwtCase) expectHeaders() map[string]any {
	h := map[string]any{"alg": string(c.kind), "kid": c.kid}
	for k, v := range c.hdr {
		h[k] = v
	}

	return h
}

func (c *jwtCase) mustAccept(rt *rapid.T, tok string, checkIssuer bool) {
	parsed, payload, err := jwt.ParseAndCheckProof(tok, c.world.Checker(), checkIssuer)
	if err != nil {
		rt.Fatalf("valid token refused: %v\n%s", err, tok)
	}

	if d := vk.Diff(c.claims, json.RawMessage(payload)); d != "" {
		rt.Fatalf("payload differs from signed claims: %s", d)
	}

	if d := vk.Diff(c.claims, parsed.Payload); d != "" {
		rt.Fatalf("decoded claims differ from signed claims: %s", d)
	}

	if d := vk.Diff(c.expectHeaders(), parsed.Headers); d != "" {
		rt.Fatalf("headers differ: %s", d)
	}

	var into map[string]json.RawMessage
	if err := parsed.DecodeClaims(&into); err != nil {
		rt.Fatalf("DecodeClaims: %v", err)
	}

	if d := vk.Diff(c.claims, into); d != "" {
		rt.Fatalf("DecodeClaims differs: %s", d)
	}

	again, err := parsed.Serialize(false)
	if err != nil || (again != tok && tok == c.token) {
		rt.Fatalf("parsed token serializes to something else (%v):\n%s\n%s", err, tok, again)
	}
}

func (c *jwtCase) accepted(tok string, w *vk.World, checkIssuer bool) bool {
	_, _, err := jwt.ParseAndCheckProof(tok, w.Checker(), checkIssuer)

	return err == nil
}

func TestC01_SignVerify(t *testing.T) {
	vk.Check(t, "claims/headers/key drawn; non-trivial = claims have at least one member; distinct by (alg, claims, headers)", 1500, 40000,
		func(rt *rapid.T, c *vk.Case) {
			j := drawJWT(rt)
			j.sign(rt)
			c.Class("alg=%s", j.kind)

			hasIss := j.claims["iss"] != nil
			c.Class("iss=%v", hasIss)
			j.mustAccept(rt, j.token, false)

			if hasIss {
				j.mustAccept(rt, j.token, true)
			} else if j.accepted(j.token, j.world, true) {
				rt.Fatalf("issuer check passed without an iss claim")
			}

			// the embedded-key checker agrees
			if err := jwt.CheckProof(j.token, vk.EmbeddedChecker(j.key), nil, nil); err != nil {
				rt.Fatalf("embedded checker refused: %v", err)
			}

			if err := jwt.CheckProof(j.token, vk.EmbeddedChecker(vk.GetKey(j.kind, "c")), nil, nil); err == nil {
				rt.Fatalf("embedded checker accepted a foreign key")
			}

			if !jwt.IsJWS(j.token) || jwt.IsJWTUnsecured(j.token) {
				rt.Fatalf("token misclassified")
			}

			// the token is what an independent implementation expects
			hdr, payload, sig, err := vk.SplitJWS(j.token)
			if err != nil {
				rt.Fatalf("token not a compact JWS: %v", err)
			}

			if d := vk.Diff(j.expectHeaders(), hdr); d != "" {
				rt.Fatalf("token headers: %s", d)
			}

			if d := vk.Diff(j.claims, json.RawMessage(payload)); d != "" {
				rt.Fatalf("token payload: %s", d)
			}

			if !refVerify(j.key, []byte(j.token[:strings.LastIndexByte(j.token, '.')]), sig) {
				rt.Fatalf("reference implementation refuses the signature")
			}

			// and the library accepts a token of an independent implementation
			ind := vk.MakeJWS(j.expectHeaders(), append([]byte(" \n"), vk.MustJSON(j.claims)...), j.key)
			j.mustAccept(rt, ind, false)

			if len(j.claims) > 0 {
				c.NonTrivial(string(j.kind), j.claims, j.hdr)
			}

			c.Sample(map[string]any{"alg": j.kind, "claims": j.claims, "headers": j.hdr})
		})
}

func TestC01_Tamper(t *testing.T) {
	vk.Check(t, "one alteration of a signed token per case; non-trivial = the altered token still is a well-formed JWT; distinct by altered token", 4000, 100000,
		func(rt *rapid.T, c *vk.Case) {
			j := drawJWT(rt)
			j.claims["iss"] = j.did
			j.sign(rt)

			checkIssuer := rapid.Bool().Draw(rt, "checkIssuer")
			if !j.accepted(j.token, j.world, checkIssuer) {
				rt.Fatalf("valid token refused")
			}

			hdr, payload, sig, _ := vk.SplitJWS(j.token)
			parts := strings.Split(j.token, ".")
			world := j.world
			tok := ""
			attacker := vk.GetKey(j.kind, "c")
			kind := rapid.SampledFrom([]string{
				"payloadbyte", "sigbyte", "headerbyte", "claim", "addclaim", "dropsig", "truncsig", "extendsig", "emptysig", "none-nosig", "none-sig",
				"alg", "hmac", "kid", "attackerkid", "otherkey", "wrongrel", "swapsig", "issuer", "sigzero", "noalg", "nokid", "payloadswap",
			}).Draw(rt, "tamper")
			c.Class("tamper=%s", kind)

			flip := func(b []byte) []byte {
				out := append([]byte{}, b...)
				i := rapid.IntRange(0, len(out)-1).Draw(rt, "pos")
				out[i] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))

				return out
			}
			rehdr := func() string { return vk.B64(vk.MustJSON(hdr)) }

			switch kind {
			case "payloadbyte":
				tok = parts[0] + "." + vk.B64(flip(payload)) + "." + parts[2]
			case "sigbyte":
				tok = parts[0] + "." + parts[1] + "." + vk.B64(flip(sig))
			case "headerbyte":
				tok = vk.B64(flip(vk.UnB64(parts[0]))) + "." + parts[1] + "." + parts[2]
			case "claim":
				m := vk.Norm(j.claims).(map[string]any)
				m["iss2"] = 1
				m["sub"] = "changed" + vk.Word().Draw(rt, "w")
				tok = parts[0] + "." + vk.B64(vk.MustJSON(m)) + "." + parts[2]
			case "addclaim":
				tok = parts[0] + "." + vk.B64(append([]byte(`{"zz":1,`), bytes.TrimPrefix(payload, []byte("{"))...)) + "." + parts[2]
			case "dropsig":
				tok = parts[0] + "." + parts[1]
			case "emptysig":
				tok = parts[0] + "." + parts[1] + "."
			case "truncsig":
				tok = parts[0] + "." + parts[1] + "." + vk.B64(sig[:rapid.IntRange(0, len(sig)-1).Draw(rt, "len")])
			case "extendsig":
				tok = parts[0] + "." + parts[1] + "." + vk.B64(append(append([]byte{}, sig...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "ext")...))
			case "sigzero":
				tok = parts[0] + "." + parts[1] + "." + vk.B64(make([]byte, len(sig)))
			case "none-nosig", "none-sig":
				hdr["alg"] = vk.Pick(rt, "none", "none", "None", "NONE", "")
				tok = rehdr() + "." + parts[1] + "."

				if kind == "none-sig" {
					tok += parts[2]
				}
			case "alg":
				// relabel and re-sign with the real key: key and label no longer fit
				var others []vk.Kind

				for _, k := range vk.JWTKinds {
					if k != j.kind && !(isRSA(k) && isRSA(j.kind)) {
						others = append(others, k)
					}
				}

				hdr["alg"] = string(rapid.SampledFrom(others).Draw(rt, "other"))
				tok = vk.MakeJWS(hdr, payload, j.key)
			case "hmac":
				hdr["alg"] = "HS256"
				in := rehdr() + "." + parts[1]
				m := hmac.New(sha256.New, vk.Pick(rt, "secret", j.key.PubBytes, vk.MustJSON(j.key.JWK), nil))
				m.Write([]byte(in))
				tok = in + "." + vk.B64(m.Sum(nil))
			case "kid":
				hdr["kid"] = j.did + "#" + vk.Pick(rt, "kidsuffix", "zz-second", "nokey", "")
				tok = rehdr() + "." + parts[1] + "." + parts[2]
			case "attackerkid":
				// a token properly signed by another DID's key while iss names the victim
				hdr["kid"] = "did:example:zz-attacker#" + strings.SplitN(j.kid, "#", 2)[1]
				tok = vk.MakeJWS(hdr, payload, attacker)
				checkIssuer = true
			case "otherkey":
				tok = vk.MakeJWS(hdr, payload, attacker)
			case "wrongrel":
				hdr["kid"] = j.did + "#zz-other"
				tok = vk.MakeJWS(hdr, payload, j.key)
			case "swapsig":
				k2 := vk.MakeJWS(hdr, append([]byte(" "), payload...), j.key)
				tok = parts[0] + "." + parts[1] + "." + strings.Split(k2, ".")[2]
			case "payloadswap":
				k2 := vk.MakeJWS(hdr, append([]byte(" "), payload...), j.key)
				tok = parts[0] + "." + strings.Split(k2, ".")[1] + "." + parts[2]
			case "issuer":
				m := vk.Norm(j.claims).(map[string]any)
				// the key holder's own kid and key, under an iss that is not (exactly) the key holder
				m["iss"] = vk.Pick[any](rt, "other iss", "did:example:zz-attacker", "", nil, 5, false, []any{j.did}, map[string]any{"id": j.did}, vk.Near(rt, "near iss", j.did))
				tok = vk.MakeJWS(hdr, vk.MustJSON(m), j.key)
				checkIssuer = true
			case "noalg":
				delete(hdr, "alg")
				tok = vk.MakeJWS(hdr, payload, j.key)
			case "nokid":
				delete(hdr, "kid")
				tok = vk.MakeJWS(hdr, payload, j.key)
			}

			if kind == "sigbyte" || kind == "headerbyte" || kind == "payloadbyte" {
				// both have to differ in content, not in spelling only
				h2, p2, s2, err := vk.SplitJWS(tok)
				if err == nil && vk.Same(h2, hdr) && bytes.Equal(p2, payload) && bytes.Equal(s2, sig) {
					return
				}
			}

			if j.accepted(tok, world, checkIssuer) {
				rt.Fatalf("tampered token (%s) accepted:\noriginal %s\naltered  %s", kind, j.token, tok)
			}

			if jwt.IsJWS(tok) || jwt.IsJWTUnsecured(tok) {
				c.NonTrivial(kind, tok)
			}

			c.Sample(map[string]any{"tamper": kind, "alg": j.kind, "token": tok})
		})
}

func isRSA(k vk.Kind) bool { return k == vk.RS256 || k == vk.PS256 }

func TestC01_Detached(t *testing.T) {
	vk.Check(t, "tokens serialized with detached payload; non-trivial = all; distinct by payload and algorithm", 1000, 20000,
		func(rt *rapid.T, c *vk.Case) {
			j := drawJWT(rt)
			j.claims["iss"] = j.did

			tok, err := jwt.NewSigned(j.claims, jwt.SignParameters{KeyID: j.kid, JWTAlg: string(j.kind), AdditionalHeaders: j.hdr}, j.key.Creator())
			if err != nil {
				rt.Fatalf("%v", err)
			}

			full, _ := tok.Serialize(false)

			det, err := tok.Serialize(true)
			if err != nil {
				rt.Fatalf("detached: %v", err)
			}

			parts := strings.Split(det, ".")
			if len(parts) != 3 || parts[1] != "" {
				rt.Fatalf("payload not detached: %s", det)
			}

			_, payload, _, _ := vk.SplitJWS(full)

			parsed, p, err := jwt.ParseAndCheckProof(det, j.world.Checker(), true, jwt.WithJWTDetachedPayload(payload))
			if err != nil || !bytes.Equal(p, payload) {
				rt.Fatalf("detached token refused or other payload: %v", err)
			}

			if d := vk.Diff(j.claims, parsed.Payload); d != "" {
				rt.Fatalf("claims: %s", d)
			}

			wrong := append([]byte{}, payload...)

			switch vk.Pick(rt, "how", "add", "space", "flip") {
			case "add":
				wrong = append([]byte(`{"zz":0,`), wrong[1:]...)
			case "space":
				wrong = append(wrong, ' ')
			case "flip":
				wrong[rapid.IntRange(0, len(wrong)-1).Draw(rt, "pos")] ^= 1
			}

			if _, _, err := jwt.ParseAndCheckProof(det, j.world.Checker(), true, jwt.WithJWTDetachedPayload(wrong)); err == nil {
				rt.Fatalf("detached token accepted with another payload %q", wrong)
			}

			if err := jwt.CheckProof(det, j.world.Checker(), &j.did, wrong); err == nil {
				rt.Fatalf("CheckProof accepted another payload %q", wrong)
			}

			if err := jwt.CheckProof(det, j.world.Checker(), &j.did, nil); err == nil {
				rt.Fatalf("detached token accepted without payload")
			}

			c.Class("alg=%s", j.kind)
			c.NonTrivial(string(j.kind), payload)
		})
}

func TestC01_Unsecured(t *testing.T) {
	vk.Check(t, "unsecured tokens are read but never pass a proof check; non-trivial = non-empty claims", 1000, 20000,
		func(rt *rapid.T, c *vk.Case) {
			claims := drawClaims(rt)
			claims["iss"] = "did:example:x"

			tok, err := jwt.NewUnsecured(claims)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			s, err := tok.Serialize(false)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			if !jwt.IsJWTUnsecured(s) || jwt.IsJWS(s) {
				rt.Fatalf("misclassified %s", s)
			}

			parsed, _, err := jwt.Parse(s)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			if d := vk.Diff(claims, parsed.Payload); d != "" {
				rt.Fatalf("%s", d)
			}

			w := vk.NewWorld()
			w.AddDID("did:example:x", vk.VM{Fragment: "k", Key: vk.GetKey(vk.EdDSA, "a")})

			for _, ci := range []bool{true, false} {
				if _, _, err := jwt.ParseAndCheckProof(s, w.Checker(), ci); err == nil {
					rt.Fatalf("unsecured token passed the proof check")
				}
			}

			// also with a key id
			forged := vk.B64([]byte(`{"alg":"none","kid":"did:example:x#k"}`)) + "." + vk.B64(vk.MustJSON(claims)) + "."
			if _, _, err := jwt.ParseAndCheckProof(forged, w.Checker(), true); err == nil {
				rt.Fatalf("unsecured token with kid passed the proof check")
			}

			if err := jwt.CheckProof(forged, vk.EmbeddedChecker(vk.GetKey(vk.EdDSA, "a")), nil, nil); err == nil {
				rt.Fatalf("unsecured token passed the embedded checker")
			}

			c.NonTrivial(claims)
		})
}

// TestC01_Headers checks that correctly signed tokens are still refused when their headers announce something
// other than a JSON web token: another type, a nested token or no algorithm.
func TestC01_Headers(t *testing.T) {
	vk.Check(t, "correctly signed tokens with drawn typ, cty and alg headers; non-trivial = must be refused", 1000, 20000,
		func(rt *rapid.T, c *vk.Case) {
			j := drawJWT(rt)
			j.claims["iss"] = j.did

			hdr := map[string]any{"alg": string(j.kind), "kid": j.kid}
			good := true

			switch vk.Pick(rt, "typ", "none", "jwt", "explicit", "bad", "other") {
			case "jwt":
				hdr["typ"] = "JWT"
			case "explicit":
				hdr["typ"] = vk.Pick(rt, "x", "at+jwt", "vc+sd-jwt", "openid4vci-proof+jwt", "kb+JWT", "vc+jwt", "VC+SD-JWT", "+jwt")
			case "bad":
				hdr["typ"] = vk.Pick[any](rt, "b", 5, nil, true, []any{"JWT"}, map[string]any{"typ": "JWT"})
				good = false
			case "other":
				hdr["typ"] = vk.Pick(rt, "o", "", "JWS", "JWTX", "XJWT", "vc+ld", "vc+", "application/json", "jwt+vc", "vc+xjwt", "vc+ld+json")
				good = false
			}

			switch vk.Pick(rt, "cty", "none", "none", "nested", "other") {
			case "nested":
				hdr["cty"] = "JWT"
				good = false
			case "other":
				hdr["cty"] = vk.Pick[any](rt, "ctyv", "json", "vc", "", 5)
			}

			tok := vk.MakeJWS(hdr, vk.MustJSON(j.claims), j.key)

			_, _, err := jwt.ParseAndCheckProof(tok, j.world.Checker(), true)
			if (err == nil) != good {
				rt.Fatalf("token with headers %s: acceptable=%v, answer %v", vk.JS(hdr), good, err)
			}

			if _, _, err := jwt.Parse(tok); (err == nil) != good {
				rt.Fatalf("token with headers %s is read: acceptable=%v, answer %v", vk.JS(hdr), good, err)
			}

			if !good {
				c.NonTrivial(hdr["typ"], hdr["cty"])
			}

			c.Class("good=%v", good)
			c.Sample(map[string]any{"headers": hdr, "accepted": err == nil})
		})
}

// TestC01_Algorithms checks the algorithm named for each key type: a token signed with the key under that name is
// accepted, and the names are the registered ones.
func TestC01_Algorithms(t *testing.T) {
	vk.Enum(t, "every key type of the key manager", func(t *testing.T, next func() *vk.Case) {
		want := map[kms.KeyType]vk.Kind{
			kms.ED25519Type: vk.EdDSA, kms.ECDSAP256TypeDER: vk.ES256, kms.ECDSAP256TypeIEEEP1363: vk.ES256,
			kms.ECDSAP384TypeDER: vk.ES384, kms.ECDSAP384TypeIEEEP1363: vk.ES384,
			kms.ECDSAP521TypeDER: vk.ES521, kms.ECDSAP521TypeIEEEP1363: vk.ES521,
			kms.ECDSASecp256k1TypeDER: vk.ES256K, kms.ECDSASecp256k1TypeIEEEP1363: vk.ES256K,
			kms.RSARS256Type: vk.RS256, kms.RSAPS256Type: vk.PS256,
		}

		for _, kt := range []kms.KeyType{
			kms.AES128GCMType, kms.AES256GCMType, kms.AES256GCMNoPrefixType, kms.ChaCha20Poly1305Type, kms.XChaCha20Poly1305Type,
			kms.ECDSAP256TypeDER, kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP384TypeDER, kms.ECDSAP384TypeIEEEP1363,
			kms.ECDSAP521TypeDER, kms.ECDSAP521TypeIEEEP1363, kms.ECDSASecp256k1TypeDER, kms.ECDSASecp256k1TypeIEEEP1363,
			kms.ED25519Type, kms.RSARS256Type, kms.RSAPS256Type, kms.HMACSHA256Tag256Type, kms.NISTP256ECDHKWType,
			kms.NISTP384ECDHKWType, kms.NISTP521ECDHKWType, kms.X25519ECDHKWType, kms.BLS12381G2Type, kms.CLCredDefType, "", "x",
		} {
			c := next()
			c.NonTrivial(string(kt))

			algo, err := verifiable.KeyTypeToJWSAlgo(kt)

			kind, ok := want[kt]
			if ok != (err == nil) {
				t.Errorf("key type %q: algorithm %v, %v, expected %q", kt, algo, err, kind)
				continue
			}

			if !ok {
				continue
			}

			name, err := algo.Name()
			if err != nil || name != string(kind) {
				t.Errorf("key type %q: algorithm named %q (%v), expected %q", kt, name, err, kind)
				continue
			}

			w := vk.NewWorld()
			key := vk.GetKey(kind, "a")
			w.AddDID("did:example:alg", vk.VM{Fragment: "k", Key: key})

			claims := &verifiable.JWTCredClaims{Claims: &jwt.Claims{Issuer: "did:example:alg"}, VC: map[string]any{"a": 1}}

			tok, err := claims.MarshalJWSString(algo, key.Creator(), "did:example:alg#k")
			if err != nil {
				t.Errorf("key type %q: %v", kt, err)
				continue
			}

			if _, _, err := jwt.ParseAndCheckProof(tok, w.Checker(), true); err != nil {
				t.Errorf("key type %q: token refused: %v", kt, err)
			}

			c.Sample(map[string]any{"keyType": string(kt), "alg": name})
		}

		for _, algo := range []verifiable.JWSAlgorithm{-1, 7, 100} {
			if name, err := algo.Name(); err == nil {
				t.Errorf("algorithm %d is named %q", algo, name)
			}
		}
	})
}

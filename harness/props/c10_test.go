package props

import (
	"strings"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// TestC10_Binding is a decision table over binding token, issuer's confirmation claim and verifier policy.
func TestC10_Binding(t *testing.T) {
	vk.Check(t, "holder key, binding token, policy drawn; non-trivial = a binding token is present or required; distinct by (token, policy)",
		4000, 80000, func(rt *rapid.T, c *vk.Case) {
			s := &sdCase{version: vk.Pick(rt, "version", common.SDJWTVersionV2, common.SDJWTVersionV5), hash: sdHashes[0], iss: "did:example:i", kid: "did:example:i#k1",
				key: vk.GetKey(vk.EdDSA, "a"), structured: rapid.Bool().Draw(rt, "structured")}
			s.claims = vk.Obj(vk.JSONOpts{Depth: 1, MaxWidth: 3}, 1).Draw(rt, "claims")
			s.claims["always one"] = "x"
			delete(s.claims, "cnf")
			s.world = vk.NewWorld()
			s.world.AddDID(s.iss, vk.VM{Fragment: "k1", Key: s.key})

			hkind := rapid.SampledFrom(vk.JWTKinds).Draw(rt, "holderAlg")
			bound, foreign := vk.GetKey(hkind, "b"), vk.GetKey(hkind, "c")
			ok := true
			why := ""
			refuse := func(cond bool, reason string) {
				if cond && ok {
					ok, why = false, reason
				}
			}

			cnf := vk.Pick(rt, "cnf", "jwk", "jwk", "jwk", "jwk", "none", "other")

			var extra []issuer.NewOpt

			switch cnf {
			case "jwk":
				extra = append(extra, issuer.WithHolderPublicKey(bound.JWK))
			case "other":
				extra = append(extra, issuer.WithHolderPublicKey(foreign.JWK))
			}

			tok := s.issue(rt, extra...)

			combined, err := tok.Serialize(false)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			nonce, aud := vk.Str().Draw(rt, "nonce"), vk.Str().Draw(rt, "aud")
			now := time.Now()
			leeway := time.Duration(rapid.IntRange(0, 3).Draw(rt, "leeway")) * time.Hour
			payload := map[string]any{"nonce": nonce, "aud": aud, "iat": now.Unix()}
			typ := vk.Pick(rt, "typ", "kb+jwt", "kb+jwt", "", "JWT")
			hdr := map[string]any{"alg": string(hkind)}

			if typ != "" {
				hdr["typ"] = typ
			}

			expNonce, expAud := vk.Pick(rt, "expNonce", nonce, nonce, nonce, "", vk.Near(rt, "near nonce", nonce)), vk.Pick(rt, "expAud", aud, aud, aud, "", vk.Near(rt, "near audience", aud))
			required := rapid.Bool().Draw(rt, "required")
			algs := rapid.SampledFrom([][]string{{string(hkind)}, {string(hkind)}, {string(hkind), "EdDSA"}, {"EdDSA", "RS256"}, {"HS256"}, nil,
				{vk.Near(rt, "near alg", string(hkind))}}).Draw(rt, "algs")
			how := vk.Pick(rt, "binding", "good", "good", "good", "lib", "lib", "absent", "foreignKey", "altered", "none", "unsigned", "garbage", "noNonce", "noAud", "expired", "notYet", "future", "inLeeway", "issuerKey")

			late := vk.Pick(rt, "late", time.Hour, 50*time.Second, 5*time.Minute)

			var kb string

			signer := bound

			switch how {
			case "foreignKey":
				signer = foreign
			case "noNonce":
				delete(payload, "nonce")

				if rapid.Bool().Draw(rt, "lookalike") {
					payload["NONCE"] = nonce
				}

				nonce = ""
			case "noAud":
				delete(payload, "aud")

				if rapid.Bool().Draw(rt, "lookalike") {
					payload["Aud"] = aud
				}

				aud = ""
			case "expired":
				payload["exp"] = now.Add(-leeway - late).Unix()
				refuse(true, "expired")
			case "notYet":
				payload["nbf"] = now.Add(leeway + late).Unix()
				refuse(true, "not yet valid")
			case "future":
				payload["iat"] = now.Add(leeway + late).Unix()
				refuse(true, "issued in the future")
			case "inLeeway":
				payload["exp"] = now.Add(-leeway + 30*time.Minute).Unix()
				payload["nbf"] = now.Add(leeway - 30*time.Minute).Unix()
			case "issuerKey":
				signer = s.key
				hdr["alg"] = "EdDSA"
				refuse(true, "signed by the issuer's key")
			}

			kb = vk.MakeJWS(hdr, vk.MustJSON(payload), signer)
			parts := strings.Split(kb, ".")

			switch how {
			case "absent":
				kb = ""
			case "altered":
				payload["nonce"] = vk.Near(rt, "altered nonce", nonce)
				payload["extra"] = 1
				kb = parts[0] + "." + vk.B64(vk.MustJSON(payload)) + "." + parts[2]
				refuse(true, "altered")
			case "none":
				kb = vk.B64(vk.MustJSON(map[string]any{"alg": "none", "typ": typ})) + "." + parts[1] + "."
				algs = append(append([]string{}, algs...), "none")
				refuse(true, "alg none")
			case "unsigned":
				kb = parts[0] + "." + parts[1] + "."
				refuse(true, "no signature")
			case "garbage":
				kb = vk.Pick(rt, "garbage", "x", "a.b.c", "..", "e30.e30.", " ")
				refuse(true, "garbage")
			}

			claims, err := holder.Parse(combined, holder.WithSignatureVerifier(s.world.Checker()))
			if err != nil {
				rt.Fatalf("holder: %v", err)
			}

			var ds []string

			for _, cl := range claims {
				if rapid.Bool().Draw(rt, "show") {
					ds = append(ds, cl.Disclosure)
				}
			}

			_, pres := combine(strings.Split(combined, "~")[0], closeUp(s, combined, ds))
			pres += kb

			if how == "lib" {
				// the library's own way of making the binding
				iat := jwt.NewNumericDate(now)
				headers := jose.Headers{}

				if typ != "" {
					headers["typ"] = typ
				}

				lp, err := holder.CreatePresentation(combined, closeUp(s, combined, ds), holder.WithHolderVerification(&holder.BindingInfo{
					Payload: holder.BindingPayload{Nonce: nonce, Audience: aud, IssuedAt: iat},
					Signer:  algSigner{joseSigner(bound, "", ""), string(hkind)}, Headers: headers,
				}))
				if err != nil {
					rt.Fatalf("CreatePresentation: %v", err)
				}

				pres = lp
			}

			if how == "absent" {
				refuse(required, "required but absent")
			} else {
				refuse(cnf == "none", "no cnf")
				refuse(cnf == "other" && signer != foreign, "cnf names another key")
				refuse(cnf == "jwk" && signer == foreign, "foreign key")
				refuse(expNonce != "" && expNonce != nonce, "nonce")
				refuse(expAud != "" && expAud != aud, "audience")

				allowed := false
				for _, a := range algs {
					allowed = allowed || a == hdr["alg"]
				}

				refuse(!allowed, "algorithm not allowed")
			}

			opts := []verifier.ParseOpt{
				verifier.WithHolderSigningAlgorithms(algs), verifier.WithLeewayForClaimsValidation(leeway),
				verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"}),
			}
			if rapid.Bool().Draw(rt, "oldNames") {
				opts = append(opts, verifier.WithHolderBindingRequired(required), verifier.WithExpectedNonceForHolderBinding(expNonce),
					verifier.WithExpectedAudienceForHolderBinding(expAud))
			} else {
				opts = append(opts, verifier.WithHolderVerificationRequired(required), verifier.WithExpectedNonceForHolderVerification(expNonce),
					verifier.WithExpectedAudienceForHolderVerification(expAud))
			}

			out, err := s.parse(pres, opts...)
			if time.Since(now) > 20*time.Second {
				rt.Skip("too slow to tell the time")
			}

			if (err == nil) != ok {
				rt.Fatalf("expected acceptance %v (%s), got %v\nbinding %s typ %q cnf %s algs %v holder alg %s nonce %q/%q aud %q/%q required %v payload %s\n%s",
					ok, why, err, how, typ, cnf, algs, hkind, nonce, expNonce, aud, expAud, required, vk.JS(payload), pres)
			}

			if err == nil && out["iss"] != s.iss {
				rt.Fatalf("claims lost")
			}

			c.Class("binding=%s ok=%v", how, ok)

			if why != "" {
				c.Class("refused: %s", why)
			}

			if how != "absent" || required {
				c.NonTrivial(how, pres, required, expNonce, expAud, algs)
			}

			c.Sample(map[string]any{"binding": how, "payload": payload, "header": hdr, "required": required, "expectedNonce": expNonce, "expectedAud": expAud, "algs": algs, "accepted": ok, "reason": why})
		})
}

// algSigner presents the headers of a holder's signer without key id.
type algSigner struct {
	jose.Signer
	alg string
}

func (a algSigner) Headers() jose.Headers { return jose.Headers{"alg": a.alg} }

// closeUp adds the parents of the chosen disclosures.
func closeUp(s *sdCase, combined string, ds []string) []string {
	parts := strings.Split(combined, "~")

	nodes, _, _, err := walkSD(payloadOf(parts[0]), parts[1:], s.hash)
	if err != nil {
		panic(err)
	}

	in := map[string]bool{}
	for _, d := range ds {
		in[d] = true
	}

	out := []string{}
	keep := map[*sdNode]bool{}

	for _, n := range nodes {
		if in[n.enc] {
			for m := n; m != nil; m = m.parent {
				keep[m] = true
			}
		}
	}

	for _, n := range nodes {
		if keep[n] {
			out = append(out, n.enc)
		}
	}

	return out
}

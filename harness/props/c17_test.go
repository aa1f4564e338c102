package props

import (
	"crypto"
	"encoding/json"
	"sort"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// clearEmptyRef drops empty objects below a value, as the displayed subject does.
func clearEmptyRef(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}

	out := map[string]any{}

	for k, e := range m {
		if _, ok := e.(withheldArray); ok {
			continue
		}

		e = clearEmptyRef(e)
		if o, ok := e.(map[string]any); ok && len(o) == 0 {
			continue
		}

		out[k] = e
	}

	return out
}

// nodeName is the claim name a disclosure carries.
func nodeName(n *sdNode) string {
	if len(n.arr) == 3 {
		return n.arr[1].(string)
	}

	return ""
}

// closeNames extends a set of claim names until the parents of every disclosure it selects are selected.
func closeNames(nodes []*sdNode, names map[string]bool) {
	for again := true; again; {
		again = false

		for _, n := range nodes {
			if p := n.parent; names[nodeName(n)] && p != nil && !names[nodeName(p)] {
				names[nodeName(p)] = true
				again = true
			}
		}
	}
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

// displayed is the document a verifier sees when the places in hidden are withheld.
func displayed(doc map[string]any, hidden map[string]bool) map[string]any {
	out := without(doc)
	out["credentialSubject"] = expectSD("", doc["credentialSubject"], hidden)

	return out
}

func displayDiff(want, got map[string]any) string {
	w, g := meaning(plainIssuer(without(want, "credentialSubject"))), meaning(plainIssuer(without(got, "credentialSubject")))
	if d := vk.Diff(w, g); d != "" {
		return d
	}

	gs, ok := got["credentialSubject"].(map[string]any)
	if !ok {
		return "credentialSubject is no object"
	}

	return sdDiffClear(want["credentialSubject"].(map[string]any), gs, true)
}

func TestC17_Flow(t *testing.T) {
	vk.Check(t, "the credential has at least one disclosable claim and a proper, non-empty subset is shown; distinct by (document, options, names)",
		5000, 60000, func(rt *rapid.T, c *vk.Case) {
			w := vk.NewWorld()
			kind := vk.Pick(rt, "alg", vk.EdDSA, vk.ES256, vk.ES384, vk.ES256K, vk.PS256)
			p := addParty(w, issDID, vk.GetKey(kind, "a"))
			doc, _, cred := drawSecured(rt, p.did, false)

			if doc["proof"] != nil {
				return // embedded proofs do not go into the token
			}

			version := vk.Pick(rt, "version", common.SDJWTVersionV2, common.SDJWTVersionV5)
			hash := rapid.SampledFrom(sdHashes).Draw(rt, "hash")
			signer := joseSigner(p.key, p.kid, "")
			s := &sdCase{version: version, structured: true, claims: doc["credentialSubject"].(map[string]any)}

			var paths []string

			sdPaths("", s.claims, &paths)
			sort.Strings(paths)

			direct := vk.Coin(rt, "direct", 3)
			opts := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(version)}

			if direct {
				hash = crypto.SHA256
			} else {
				s.nonSD = sample(rt, "nonSD", paths, 3)
				opts = append(opts, verifiable.MakeSDJWTWithHash(hash))

				if len(s.nonSD) > 0 {
					n := len(s.nonSD)
					buf := append(append([]string{}, s.nonSD...), "kept by the caller")
					opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(buf[:n]))

					defer func() {
						if buf[n] != "kept by the caller" {
							rt.Fatalf("the caller's list was changed: %q", buf)
						}
					}()
				}

				if version == common.SDJWTVersionV5 {
					s.always, s.recursive = sample(rt, "always", paths, 2), sample(rt, "recursive", paths, 2)
					opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects(s.always), verifiable.MakeSDJWTWithRecursiveClaimsObjects(s.recursive))
				}
			}

			s.nonSD = append(s.nonSD, "id")
			shown := jwtForm(rt, doc)
			model := s.model()

			if len(model) == 0 {
				c.Class("nothing disclosable")

				return // the token has no disclosure to tell it from a plain one
			}

			// refuse tells how a presentation is to be made of the credential
			nonce := vk.Str().Draw(rt, "nonce")
			withBinding := vk.Coin(rt, "holder binding", 3)
			hk := vk.GetKey(vk.EdDSA, "b")

			present := func(of *verifiable.Credential, how string, avail, req []string) (string, error) {
				var o []verifiable.MarshalDisclosureOption

				if how == "all" {
					o = append(o, verifiable.DiscloseAll())
				}

				if len(avail) > 0 || how == "names" {
					o = append(o, verifiable.DiscloseGivenIfAvailable(avail))
				}

				if len(req) > 0 {
					o = append(o, verifiable.DiscloseGivenRequired(req))
				}

				if direct {
					o = append(o, verifiable.DisclosureSigner(signer, p.kid), verifiable.MarshalWithSDJWTVersion(version))
				}

				if withBinding {
					o = append(o, verifiable.DisclosureHolderBinding(&holder.BindingInfo{
						Payload: holder.BindingPayload{Nonce: nonce, Audience: "aud", IssuedAt: jwt.NewNumericDate(time.Now())},
						Signer:  joseSigner(hk, "", ""), Headers: jose.Headers{"typ": "kb+jwt"},
					}))
				}

				return of.MarshalWithDisclosure(o...)
			}

			of := cred
			before := vk.JS(cred.ToRawJSON())

			if !direct {
				combined, err := cred.MakeSDJWT(signer, p.kid, opts...)
				if err != nil {
					rt.Fatalf("MakeSDJWT: %v\n%s\n%s", err, vk.JS(doc), s.describe())
				}

				cfi := common.ParseCombinedFormatForIssuance(combined)
				hdr, _, _, _ := vk.SplitJWS(cfi.SDJWT)

				if hdr["kid"] != p.kid || (version == common.SDJWTVersionV5) != (hdr["typ"] == "vc+sd-jwt") {
					rt.Fatalf("headers %v", hdr)
				}

				of, err = verifiable.ParseCredential([]byte(combined), parseOpts(verifiable.WithProofChecker(w.Checker()))...)
				if err != nil {
					rt.Fatalf("issued SD-JWT credential refused: %v\n%s\n%s", err, combined, vk.JS(doc))
				}

				raw, err := json.Marshal(of)
				if err != nil {
					rt.Fatalf("MarshalJSON of the issued credential: %v", err)
				}

				re, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithProofChecker(w.Checker()))...)
				if err != nil {
					rt.Fatalf("serialized SD-JWT credential refused: %v\n%s", err, raw)
				}

				if vk.Coin(rt, "use reparsed", 3) {
					of = re
				}
			}

			if after := vk.JS(cred.ToRawJSON()); after != before {
				rt.Fatalf("the original credential changed:\n%s\n%s", before, after)
			}

			// everything
			full, err := present(of, "all", nil, nil)
			if err != nil {
				rt.Fatalf("presenting everything: %v", err)
			}

			inspect := func(pres string) ([]*sdNode, int) {
				cfp := common.ParseCombinedFormatForPresentation(pres)
				payload := payloadOf(cfp.SDJWT)
				root := payload

				if v, ok := payload["vc"].(map[string]any); ok {
					root = v
				}

				sub, ok := root["credentialSubject"].(map[string]any)
				if !ok {
					rt.Fatalf("no subject in %s", vk.JS(payload))
				}

				if (cfp.HolderVerification != "") != withBinding {
					rt.Fatalf("holder binding %q, expected %v", cfp.HolderVerification, withBinding)
				}

				nodes, unused, undisclosed, err := walkSD(sub, cfp.Disclosures, hash)
				if err != nil || unused != 0 {
					rt.Fatalf("presentation is inconsistent: %v, %d unused\n%s", err, unused, pres)
				}

				return nodes, undisclosed
			}

			nodes, undisclosed := inspect(full)

			if undisclosed != 0 || len(nodes) != len(model) {
				rt.Fatalf("%d disclosures and %d undisclosed digests, expected %d\n%s", len(nodes), undisclosed, len(model), s.describe())
			}

			for _, n := range nodes {
				if !model[n.seg] {
					rt.Fatalf("unexpected disclosable claim %s\n%s", segText(n.seg), s.describe())
				}

				if got, ok := lookupSeg(s.claims, n.seg); !ok {
					rt.Fatalf("disclosure for a place that does not exist: %s", segText(n.seg))
				} else if _, isObj := got.(map[string]any); !isObj {
					if _, isArr := got.([]any); !isArr && vk.Diff(got, n.arr[len(n.arr)-1]) != "" {
						rt.Fatalf("disclosure %s carries %s, the claim is %s", segText(n.seg), vk.JS(n.arr), vk.JS(got))
					}
				}
			}

			parse := func(pres string) *verifiable.Credential {
				out, err := verifiable.ParseCredential([]byte(pres), parseOpts(verifiable.WithProofChecker(w.Checker()))...)
				if err != nil {
					rt.Fatalf("presented credential refused: %v\n%s\n%s\n%s", err, pres, vk.JS(doc), s.describe())
				}

				return out
			}

			// display compares both display forms with the expected document
			display := func(what string, of *verifiable.Credential, hidden map[string]bool, o ...verifiable.DisplayCredentialOption) {
				want := displayed(shown, hidden)

				m, err := of.CreateDisplayCredentialMap(o...)
				if err != nil {
					rt.Fatalf("%s: display map: %v", what, err)
				}

				got := decodeObj(rt, mustJSON(rt, m))
				if d := displayDiff(want, without(got, "_sd_alg", "iss", "sub", "jti", "nbf", "iat", "exp")); d != "" {
					rt.Fatalf("%s: display map differs: %s\nwant %s\ngot  %s\n%s", what, d, vk.JS(want), vk.JS(got), s.describe())
				}

				dc, err := of.CreateDisplayCredential(o...)
				if err != nil {
					rt.Fatalf("%s: display credential: %v", what, err)
				}

				got = decodeObj(rt, mustJSON(rt, dc))
				if d := displayDiff(want, without(got, "_sd_alg", "iss", "sub", "jti", "nbf", "iat", "exp")); d != "" {
					rt.Fatalf("%s: display credential differs: %s\nwant %s\ngot  %s\n%s", what, d, vk.JS(want), vk.JS(got), s.describe())
				}
			}

			whole := parse(full)
			display("everything", whole, nil, verifiable.DisplayAllDisclosures())

			allHidden := map[string]bool{}
			for _, n := range nodes {
				allHidden[n.seg] = true
			}

			display("nothing", whole, allHidden)

			if len(nodes) == 0 {
				return
			}

			// a selection by name
			names := map[string]bool{}

			for _, n := range nodes {
				if vk.Coin(rt, "name", 3) {
					names[nodeName(n)] = true
				}
			}

			free := without(map[string]any{})
			for n := range names {
				free[n] = true
			}

			// display of given names needs no closure: what has no visible parent is not shown
			hidden := map[string]bool{}

			for _, n := range nodes {
				if !names[nodeName(n)] {
					hidden[n.seg] = true
				}
			}

			display("given names", whole, hidden, verifiable.DisplayGivenDisclosures(keysOf(names)))

			closeNames(nodes, names)

			var avail, req []string

			for _, n := range keysOf(names) {
				switch rapid.IntRange(0, 4).Draw(rt, "how") {
				case 0, 1:
					avail = append(avail, n)
				case 2, 3:
					req = append(req, n)
				default:
					avail, req = append(avail, n), append(req, n)
				}
			}

			have := map[string]bool{}
			for _, n := range nodes {
				have[nodeName(n)] = true
			}

			if vk.Coin(rt, "unknown", 4) && !have["no such claim"] {
				avail = append(avail, "no such claim")
			}

			if _, err := present(of, "names", avail, append(append([]string{}, req...), "no such claim")); err == nil {
				rt.Fatalf("a required claim is not available but MarshalWithDisclosure succeeds")
			}

			if len(avail)+len(req) > 0 {
				if _, err := present(of, "all", avail, req); err == nil {
					rt.Fatalf("incompatible options accepted")
				}
			}

			pres, err := present(of, "names", avail, req)
			if err != nil {
				rt.Fatalf("presenting %q and %q: %v", avail, req, err)
			}

			subset, _ := inspect(pres)
			seen := map[string]bool{}

			for _, n := range subset {
				seen[n.seg] = true
			}

			hidden = map[string]bool{}

			for _, n := range nodes {
				if !names[nodeName(n)] {
					hidden[n.seg] = true
				}

				if names[nodeName(n)] != seen[n.seg] {
					rt.Fatalf("claim %s shown: %v, selected: %v (%q, %q)\n%s", segText(n.seg), seen[n.seg], names[nodeName(n)], avail, req, s.describe())
				}
			}

			display("selection", parse(pres), hidden, verifiable.DisplayAllDisclosures())

			// passed on without a new binding, the old one stays; a new one replaces it
			if vk.Coin(rt, "onward", 2) {
				onward(rt, parse(pick2(rt, full, pres)), avail, req)
			}

			if again, err := present(of, "all", nil, nil); err != nil {
				rt.Fatalf("presenting everything again: %v", err)
			} else if n, u := inspect(again); u != 0 || len(n) != len(model) {
				rt.Fatalf("after a selection was presented, %d disclosures and %d undisclosed digests, expected %d", len(n), u, len(model))
			}

			c.Class("v%d", version)
			c.Class("direct %v", direct)
			c.Class("binding %v", withBinding)

			if len(subset) > 0 && len(subset) < len(nodes) {
				c.NonTrivial(vk.JS(doc), s.describe(), keysOf(names))
				c.Sample(pres)
			}
		})
}

func pick2(rt *rapid.T, a, b string) string {
	return vk.Pick(rt, "which", a, b)
}

// onward presents a credential that was itself received as a presentation.
func onward(rt *rapid.T, got *verifiable.Credential, avail, req []string) {
	env := got.JWTEnvelope
	if env == nil || len(env.SDJWTDisclosures) == 0 {
		return
	}

	have := map[string]bool{}
	for _, d := range env.SDJWTDisclosures {
		have[d.Name] = true
	}

	for _, o := range []struct {
		what string
		opts []verifiable.MarshalDisclosureOption
		want map[string]bool
	}{
		{"all", []verifiable.MarshalDisclosureOption{verifiable.DiscloseAll()}, have},
		{"given", []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenIfAvailable(append(append([]string{}, avail...), req...))}, nil},
		{"none", []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenIfAvailable([]string{})}, map[string]bool{}},
	} {
		if o.want == nil {
			o.want = map[string]bool{}

			for _, n := range append(append([]string{}, avail...), req...) {
				o.want[n] = true
			}
		}

		var want []string

		for _, d := range env.SDJWTDisclosures {
			if o.want[d.Name] {
				want = append(want, d.Disclosure)
			}
		}

		text, err := got.MarshalWithDisclosure(o.opts...)
		if err != nil {
			rt.Fatalf("passing on %s: %v", o.what, err)
		}

		cfp := common.ParseCombinedFormatForPresentation(text)

		if cfp.SDJWT != env.JWT || cfp.HolderVerification != env.SDHolderBinding {
			rt.Fatalf("passing on %s: token %q with binding %q instead of %q with %q", o.what, cfp.SDJWT, cfp.HolderVerification, env.JWT, env.SDHolderBinding)
		}

		sort.Strings(want)
		sort.Strings(cfp.Disclosures)

		if vk.JS(want) != vk.JS(cfp.Disclosures) && len(want)+len(cfp.Disclosures) > 0 {
			rt.Fatalf("passing on %s: disclosures %q, expected %q", o.what, cfp.Disclosures, want)
		}
	}
}

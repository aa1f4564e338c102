package props

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

var sdAlgs = []string{"EdDSA", "ES256", "ES384"}

func closedSubset(rt *rapid.T, nodes []*sdNode) map[*sdNode]bool {
	chosen := map[*sdNode]bool{}
	mode := vk.Pick(rt, "subset", "random", "random", "all", "none", "one")

	for _, n := range nodes {
		switch mode {
		case "all":
			chosen[n] = true
		case "random":
			if rapid.Bool().Draw(rt, "pick") {
				for m := n; m != nil; m = m.parent {
					chosen[m] = true
				}
			}
		}
	}

	if mode == "one" && len(nodes) > 0 {
		for m := rapid.SampledFrom(nodes).Draw(rt, "one"); m != nil; m = m.parent {
			chosen[m] = true
		}
	}

	return chosen
}

func (c *sdCase) parse(p string, extra ...verifier.ParseOpt) (map[string]any, error) {
	return verifier.Parse(p, append([]verifier.ParseOpt{
		verifier.WithSignatureVerifier(c.world.Checker()), verifier.WithIssuerSigningAlgorithms(sdAlgs),
	}, extra...)...)
}

// TestC07_Selection: issue, let the holder read, present any subset, compare with the pruned original.
func TestC07_Selection(t *testing.T) {
	vk.Check(t, "claims, version, issuing options and a subset of disclosures closed under parents; non-trivial = at least one disclosure exists and at least one was withheld or shown; distinct by (options, claims, subset)",
		2500, 60000, func(rt *rapid.T, c *vk.Case) {
			s := drawSD(rt)
			tok := s.issue(rt)

			combined, err := tok.Serialize(false)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			cfi := common.ParseCombinedFormatForIssuance(combined)
			nodes, unused, undisclosed, err := walkSD(payloadOf(cfi.SDJWT), cfi.Disclosures, s.hash)

			if err != nil || unused != 0 {
				rt.Fatalf("issued token is inconsistent: %v, %d unused disclosures\n%s", err, unused, s.describe())
			}

			if !s.decoys && undisclosed != 0 {
				rt.Fatalf("%d digests without disclosure although no decoys were asked for\n%s", undisclosed, s.describe())
			}

			want := s.model()
			got := map[string]bool{}

			for _, n := range nodes {
				if got[n.seg] {
					rt.Fatalf("claim %s is disclosable twice\n%s", segText(n.seg), s.describe())
				}

				got[n.seg] = true
				if !want[n.seg] {
					rt.Fatalf("claim %s is selectively disclosable but should not be\n%s", segText(n.seg), s.describe())
				}
			}

			for w := range want {
				if !got[w] {
					rt.Fatalf("claim %s is not selectively disclosable\n%s", segText(w), s.describe())
				}
			}

			// the holder
			claims, err := holder.Parse(combined, holder.WithSignatureVerifier(s.world.Checker()))
			if err != nil {
				rt.Fatalf("holder refuses: %v\n%s", err, s.describe())
			}

			if len(claims) != len(nodes) {
				rt.Fatalf("holder sees %d claims, token has %d", len(claims), len(nodes))
			}

			byEnc := map[string]*sdNode{}
			for _, n := range nodes {
				byEnc[n.enc] = n
			}

			for _, cl := range claims {
				n := byEnc[cl.Disclosure]
				if n == nil {
					rt.Fatalf("holder invents or repeats a disclosure %q", cl.Disclosure)
				}

				delete(byEnc, cl.Disclosure)

				if len(n.arr) == 3 && n.arr[1] != cl.Name {
					rt.Fatalf("holder's claim name %q, disclosure says %v", cl.Name, n.arr[1])
				}

				orig, ok := lookupSeg(s.claims, n.seg)
				if !ok {
					rt.Fatalf("no claim at %s", segText(n.seg))
				}

				if d := vk.Diff(orig, cl.Value); d != "" {
					rt.Fatalf("holder's value of %s differs: %s\n%s", segText(n.seg), d, s.describe())
				}
			}

			if len(nodes) == 0 {
				c.Class("no disclosures")

				return
			}

			chosen := closedSubset(rt, nodes)

			var encs []string

			for _, n := range nodes {
				if chosen[n] {
					encs = append(encs, n.enc)
				}
			}

			if len(encs) > 1 {
				encs = rapid.Permutation(encs).Draw(rt, "order")
			}

			pres, err := holder.CreatePresentation(combined, encs)
			if err != nil {
				rt.Fatalf("CreatePresentation: %v", err)
			}

			out, err := s.parse(pres)
			if err != nil {
				rt.Fatalf("verifier refuses: %v\n%s\nchosen %d of %d", err, s.describe(), len(encs), len(nodes))
			}

			if out["iss"] != s.iss {
				rt.Fatalf("iss %v", out["iss"])
			}

			exp := expectSD("", s.claims, hiddenSet(nodes, chosen)).(map[string]any)
			if d := sdDiff(exp, without(out, "iss")); d != "" {
				rt.Fatalf("verifier's claims: %s\nexpected %s\ngot %s\n%s", d, vk.JS(exp), vk.JS(out), s.describe())
			}

			c.Class("v%d structured=%v", s.version, s.structured)
			c.Class("shown %s", map[bool]string{true: "all", false: "part"}[len(encs) == len(nodes)])
			c.NonTrivial(s.describe(), encs)
			c.Sample(s.describe())
		})
}

// TestC07_FromVC does the same for NewFromVC, which treats the subject only.
func TestC07_FromVC(t *testing.T) {
	vk.Check(t, "VC-shaped claims, subject made selectively disclosable; non-trivial = a disclosure exists; distinct by (options, subject, subset)",
		800, 20000, func(rt *rapid.T, c *vk.Case) {
			s := drawSD(rt)
			vc := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": []any{"VerifiableCredential"},
				"id": vk.URI().Draw(rt, "id"), "x": vk.JSON(vk.JSONOpts{Depth: 1}).Draw(rt, "x")}
			vc["credentialSubject"] = s.claims
			in := map[string]any{"iss": s.iss, "jti": "j1", "vc": vc}
			wrapped := true

			if s.version == common.SDJWTVersionV5 && rapid.Bool().Draw(rt, "flat") {
				vc["iss"] = s.iss
				in = vc
				wrapped = false
			}

			orig := vk.CloneMap(in)

			tok, err := issuer.NewFromVC(in, nil, joseSigner(s.key, s.kid, ""), s.opts()...)
			if err != nil {
				rt.Fatalf("NewFromVC: %v\n%s", err, s.describe())
			}

			combined, err := tok.Serialize(false)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			cfi := common.ParseCombinedFormatForIssuance(combined)
			nodes, unused, _, err := walkSD(payloadOf(cfi.SDJWT), cfi.Disclosures, s.hash)

			if err != nil || unused != 0 {
				rt.Fatalf("issued token is inconsistent: %v, %d unused disclosures\n%s", err, unused, s.describe())
			}

			prefix := "\x00credentialSubject"
			if wrapped {
				prefix = "\x00vc" + prefix
			}

			want := s.model()
			if len(want) != len(nodes) {
				rt.Fatalf("%d disclosures, expected %d\n%s", len(nodes), len(want), s.describe())
			}

			for _, n := range nodes {
				if len(n.seg) < len(prefix) || n.seg[:len(prefix)] != prefix || !want[n.seg[len(prefix):]] {
					rt.Fatalf("unexpected disclosable claim %s", segText(n.seg))
				}
			}

			if _, err := holder.Parse(combined, holder.WithSignatureVerifier(s.world.Checker())); err != nil {
				rt.Fatalf("holder refuses: %v", err)
			}

			if len(nodes) == 0 {
				return
			}

			chosen := closedSubset(rt, nodes)

			var encs []string

			for _, n := range nodes {
				if chosen[n] {
					encs = append(encs, n.enc)
				}
			}

			pres, err := holder.CreatePresentation(combined, encs)
			if err != nil {
				rt.Fatalf("CreatePresentation: %v", err)
			}

			out, err := s.parse(pres)
			if err != nil {
				rt.Fatalf("verifier refuses: %v\n%s", err, s.describe())
			}

			exp := expectSD("", orig, hiddenSet(nodes, chosen)).(map[string]any)
			if d := sdDiff(exp, out); d != "" {
				rt.Fatalf("verifier's claims: %s\nexpected %s\ngot %s\n%s", d, vk.JS(exp), vk.JS(out), s.describe())
			}

			c.Class("v%d wrapped=%v", s.version, wrapped)
			c.NonTrivial(s.describe(), encs)
		})
}

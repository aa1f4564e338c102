package props

import (
	"crypto"
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// indep is an SD-JWT made by an independent issuer.
type indep struct {
	rt      *rapid.T
	hash    crypto.Hash
	n       int
	discl   []string
	payload map[string]any
	claims  map[string]any
}

func (x *indep) salt() string {
	x.n++

	return vk.B64([]byte(fmt.Sprintf("%016d", x.n)))
}

func (x *indep) disclose(elems ...any) string {
	d := vk.B64(vk.MustJSON(append([]any{x.salt()}, elems...)))
	x.discl = append(x.discl, d)

	return refDigest(x.hash, d)
}

func (x *indep) hide(v any, depth int) any {
	switch o := v.(type) {
	case map[string]any:
		out := map[string]any{}

		var ds []any

		for _, k := range vk.SortedKeys(o) {
			val := x.hide(o[k], depth+1)

			if rapid.IntRange(0, 2).Draw(x.rt, "hide") == 0 {
				out[k] = val
			} else {
				ds = append(ds, x.disclose(k, val))
			}
		}

		if vk.Coin(x.rt, "decoy", 4) {
			ds = append(ds, refDigest(x.hash, x.salt()))
		}

		if len(ds) > 1 {
			ds = rapid.Permutation(ds).Draw(x.rt, "perm")
		}

		if len(ds) > 0 {
			out["_sd"] = ds
		}

		return out
	case []any:
		out := []any{}

		for _, e := range o {
			switch rapid.IntRange(0, 2).Draw(x.rt, "hideElem") {
			case 0:
				out = append(out, e)
			case 1:
				out = append(out, map[string]any{"...": x.disclose(e)})
			default:
				out = append(out, map[string]any{"...": x.disclose(x.hide(e, depth+1))})
			}
		}

		return out
	default:
		return v
	}
}

func drawIndep(rt *rapid.T) *indep {
	x := &indep{rt: rt, hash: rapid.SampledFrom(sdHashes).Draw(rt, "hash")}
	x.claims = vk.Obj(vk.JSONOpts{Depth: 2, MaxWidth: 3}, 1).Draw(rt, "claims")
	x.payload = x.hide(x.claims, 0).(map[string]any)
	x.payload["_sd_alg"] = strings.ToLower(x.hash.String())

	return x
}

type sdIssuer struct {
	iss, kid string
	key      *vk.Key
	world    *vk.World
}

func newSDIssuer(rt *rapid.T) *sdIssuer {
	i := &sdIssuer{iss: "did:example:sdissuer", kid: "did:example:sdissuer#k1", world: vk.NewWorld()}
	i.key = vk.GetKey(vk.Pick(rt, "alg", vk.EdDSA, vk.ES256, vk.ES384), "a")
	i.world.AddDID(i.iss, vk.VM{Fragment: "k1", Key: i.key})

	return i
}

func (i *sdIssuer) sign(payload map[string]any, hdr map[string]any) string {
	p := without(payload)
	p["iss"] = i.iss
	h := map[string]any{"alg": string(i.key.Kind), "kid": i.kid}

	for k, v := range hdr {
		h[k] = v
	}

	return vk.MakeJWS(h, vk.MustJSON(p), i.key)
}

func (i *sdIssuer) holder(combined string, extra ...holder.ParseOpt) ([]*holder.Claim, error) {
	return holder.Parse(combined, append([]holder.ParseOpt{holder.WithSignatureVerifier(i.world.Checker()), holder.WithIssuerSigningAlgorithms(sdAlgs)}, extra...)...)
}

func (i *sdIssuer) verifier(combined string, extra ...verifier.ParseOpt) (map[string]any, error) {
	return verifier.Parse(combined, append([]verifier.ParseOpt{verifier.WithSignatureVerifier(i.world.Checker()), verifier.WithIssuerSigningAlgorithms(sdAlgs)}, extra...)...)
}

func combine(jwt string, ds []string) (issuance, presentation string) {
	return strings.Join(append([]string{jwt}, ds...), "~"), strings.Join(append([]string{jwt}, ds...), "~") + "~"
}

// TestC09_Accept: tokens of an independent issuer with any closed subset are accepted and reconstructed; other subsets are refused.
func TestC09_Accept(t *testing.T) {
	vk.Check(t, "claims hidden at random by an independent issuer, any subset of disclosures; non-trivial = at least one disclosure; distinct by (payload, subset)",
		2500, 60000, func(rt *rapid.T, c *vk.Case) {
			i := newSDIssuer(rt)
			x := drawIndep(rt)
			jwt := i.sign(x.payload, nil)

			nodes, unused, _, err := walkSD(x.payload, x.discl, x.hash)
			if err != nil || unused != 0 {
				rt.Fatalf("VERIF-HARNESS-ERROR: own issuer broken: %v %d", err, unused)
			}

			chosen := map[*sdNode]bool{}

			for _, n := range nodes {
				chosen[n] = rapid.IntRange(0, 3).Draw(rt, "pick") > 0
			}

			if rapid.Bool().Draw(rt, "close") {
				for _, n := range nodes {
					if chosen[n] {
						for m := n.parent; m != nil; m = m.parent {
							chosen[m] = true
						}
					}
				}
			}

			closed := true

			var ds []string

			for _, n := range nodes {
				if !chosen[n] {
					continue
				}

				ds = append(ds, n.enc)

				for m := n.parent; m != nil; m = m.parent {
					closed = closed && chosen[m]
				}
			}

			iss, pres := combine(jwt, ds)
			claims, herr := i.holder(iss)
			out, verr := i.verifier(pres)

			if (herr == nil) != closed || (verr == nil) != closed {
				rt.Fatalf("parents present: %v, holder says %v, verifier says %v\npayload %s\ndisclosures %s", closed, herr, verr, vk.JS(x.payload), decodeAll(ds))
			}

			c.Class("closed=%v", closed)

			if len(nodes) > 0 {
				c.NonTrivial(x.payload, ds)
			}

			c.Sample(map[string]any{"payload": x.payload, "disclosures": decodeAll(ds)})

			if !closed {
				return
			}

			if len(claims) != len(ds) {
				rt.Fatalf("holder sees %d claims of %d", len(claims), len(ds))
			}

			exp := expectSD("", x.claims, hiddenSet(nodes, chosen)).(map[string]any)
			if d := sdDiffDeep(exp, without(out, "iss")); d != "" {
				rt.Fatalf("verifier's claims: %s\nexpected %s\ngot %s\npayload %s", d, vk.JS(exp), vk.JS(out), vk.JS(x.payload))
			}
		})
}

// sdDiffDeep removes withheld arrays, nulls and empty arrays in elements alike on both sides.
func sdDiffDeep(want, got map[string]any) string {
	if d := sdDiff(want, got); d == "" {
		return ""
	}

	return vk.Diff(dropVoid(want), dropVoid(got))
}

func dropVoid(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}

		for k, e := range x {
			if w := dropVoid(e); w != nil {
				out[k] = w
			}
		}

		return out
	case []any:
		out := []any{}

		for _, e := range x {
			out = append(out, dropVoid(e))
		}

		if len(out) == 0 {
			return nil
		}

		return out
	case withheldArray:
		return nil
	default:
		return v
	}
}

func decodeAll(ds []string) string {
	var out []string

	for _, d := range ds {
		b, err := base64.RawURLEncoding.DecodeString(d)
		if err != nil {
			b = []byte(d)
		}

		out = append(out, string(b))
	}

	return strings.Join(out, "  ")
}

// TestC09_Refuse plants one defect in a token or its disclosures.
func TestC09_Refuse(t *testing.T) {
	vk.Check(t, "one structural defect in token or disclosures per case, at a random place; non-trivial = all; distinct by (defect, payload, disclosures)",
		4000, 80000, func(rt *rapid.T, c *vk.Case) {
			i := newSDIssuer(rt)
			x := drawIndep(rt)
			ds := append([]string{}, x.discl...)
			holderToo := true

			// the object a defect is planted in: the payload or the value of a disclosure, wrapped in a visible member
			val := func(label string) any {
				return rapid.SampledFrom([]any{1, 2, nil, false, "", 0, "x", []any{}, []any{nil}, map[string]any{}, map[string]any{"v": 1}}).Draw(rt, label)
			}
			target := map[string]any{"v": val("visible")}
			x.payload["zzTarget"] = target
			inDisclosure := rapid.Bool().Draw(rt, "inDisclosure")
			mk := func(elems ...any) string {
				d := vk.B64(vk.MustJSON(append([]any{x.salt()}, elems...)))
				ds = append(ds, d)

				return refDigest(x.hash, d)
			}
			raw := func(text string) string {
				d := vk.B64([]byte(text))
				ds = append(ds, d)

				return refDigest(x.hash, d)
			}
			other := refDigest(x.hash, "some other disclosure")

			kinds := []string{
				"dupInList", "dupAcross", "dupThrough", "dupThroughUnknown", "dupInArray", "dupArrayAndList", "dupUnknown", "shadowVisible", "shadowDisclosed", "nameSd", "nameDots",
				"elemInSd", "claimInArray", "four", "one", "empty", "saltNumber", "nameNumber", "object", "string", "notBase64", "notJSON", "padding",
				"sdString", "sdNumbers", "algUnknown", "algMissing", "algSha1", "algNumber", "unmatched", "otherHash", "altered", "duplicateDisclosure", "resalted",
			}
			kind := rapid.SampledFrom(kinds).Draw(rt, "defect")
			c.Class("defect=%s", kind)

			switch kind {
			case "dupInList":
				d := mk("n1", 1)
				target["_sd"] = []any{d, other, d}
			case "dupAcross":
				d := mk("n1", 1)
				target["_sd"] = []any{d}
				target["sub"] = map[string]any{"_sd": []any{d}}
			case "dupThrough", "dupThroughUnknown":
				// at least one of the two places is inside the value of a disclosure
				d := other
				if kind == "dupThrough" {
					d = mk("n1", val("value"))
				}

				box := func(i int) string {
					var v any = map[string]any{"_sd": []any{d}}
					if rapid.Bool().Draw(rt, "deep") {
						v = map[string]any{"in": v}
					}

					if rapid.Bool().Draw(rt, "deeper") {
						v = map[string]any{"_sd": []any{mk("in2", v)}}
					}

					return mk(fmt.Sprintf("box%d", i), v)
				}

				switch vk.Pick(rt, "where", "beside", "before", "below", "boxes") {
				case "beside":
					target["_sd"] = []any{box(0), d}
				case "before":
					target["_sd"] = []any{d, box(0)}
				case "below":
					target["_sd"] = []any{box(0)}
					target["sub"] = map[string]any{"_sd": []any{d}}
				default:
					target["_sd"] = []any{box(0), box(1)}
				}
			case "dupInArray":
				d := mk(1)
				target["arr"] = []any{map[string]any{"...": d}, 1, map[string]any{"...": d}}
			case "dupArrayAndList":
				d := other
				target["_sd"] = []any{d}
				target["arr"] = []any{map[string]any{"...": d}}
			case "dupUnknown":
				target["_sd"] = []any{other, other}
			case "shadowVisible":
				target["_sd"] = []any{mk("v", val("shadow"))}
			case "shadowDisclosed":
				target["_sd"] = []any{mk("w", val("first")), mk("w", val("second"))}
			case "nameSd":
				target["_sd"] = []any{mk("_sd", []any{other})}
			case "nameDots":
				target["_sd"] = []any{mk("...", "x")}
			case "elemInSd":
				target["_sd"] = []any{mk("just a value")}
			case "claimInArray":
				target["arr"] = []any{map[string]any{"...": mk("name", "value")}}
			case "four":
				if rapid.Bool().Draw(rt, "arr") {
					target["arr"] = []any{map[string]any{"...": mk("name", "value", "more")}}
				} else {
					target["_sd"] = []any{mk("name", "value", "more")}
				}
			case "one":
				target["_sd"] = []any{mk()}
			case "empty":
				target["_sd"] = []any{raw("[]")}
			case "saltNumber":
				target["_sd"] = []any{raw(`[1,"name","value"]`)}
			case "nameNumber":
				target["_sd"] = []any{raw(`["saltsaltsaltsalt",5,"value"]`)}
			case "object":
				target["_sd"] = []any{raw(`{"0":"salt","1":"name","2":"value"}`)}
			case "string":
				target["_sd"] = []any{raw(`"salt"`)}
			case "notJSON":
				target["_sd"] = []any{raw(`["saltsaltsaltsalt","name","value"`)}
			case "notBase64":
				d := "!" + vk.B64([]byte(`["saltsaltsaltsalt","n","v"]`))
				ds = append(ds, d)
				target["_sd"] = []any{refDigest(x.hash, d)}
			case "padding":
				d := base64.URLEncoding.EncodeToString([]byte(`["saltsaltsaltsalt","n","vv"]`))
				for !strings.HasSuffix(d, "=") {
					d += "="
				}
				ds = append(ds, d)
				target["_sd"] = []any{refDigest(x.hash, d)}
			case "sdString":
				target["_sd"] = mk("n", 1)
			case "sdNumbers":
				target["_sd"] = []any{mk("n", 1), 7}
			case "algUnknown":
				name := vk.Pick(rt, "alg name", "sha-256", "sha-384", "sha-512")
				alg := vk.Pick(rt, "alg", "sha-257", "", "none", "SHA", "sha256", "blake2b-256", strings.ReplaceAll(name, "-", "_"),
					strings.ReplaceAll(name, "-", " "), name+"-256", "sha3-256", "sha-512-256", vk.Near(rt, "near alg", name))

				if strings.EqualFold(alg, name) {
					return // spelling of letter case is the reader's business
				}

				x.payload["_sd_alg"] = alg
			case "algSha1":
				x.payload["_sd_alg"] = vk.Pick(rt, "weak", "sha-1", "md5", "MD4", "RIPEMD-160")
			case "algMissing":
				delete(x.payload, "_sd_alg")
			case "algNumber":
				x.payload["_sd_alg"] = 256
			case "unmatched":
				mk(vk.Word().Draw(rt, "extra"), 1)
			case "otherHash":
				h := rapid.SampledFrom(sdHashes).Filter(func(h crypto.Hash) bool { return h != x.hash }).Draw(rt, "h2")
				mk("n1", 1)
				target["_sd"] = []any{refDigest(h, ds[len(ds)-1])}
			case "altered", "resalted":
				target["_sd"] = []any{mk("n1", "value")}
				k := len(ds) - 1
				ds[k] = vk.B64(vk.MustJSON([]any{"salt", "n1", "value"}))

				if kind == "altered" {
					_, arr := decodeDisclosure(ds[k])
					arr[rapid.IntRange(0, 2).Draw(rt, "which")] = "changed"
					ds[k] = vk.B64(vk.MustJSON(arr))
				}
			case "duplicateDisclosure":
				target["_sd"] = []any{mk("n1", 1)}
				ds = append(ds, rapid.SampledFrom(ds).Draw(rt, "dup"))
				holderToo = false // the holder may treat the repetition as one disclosure
			}

			if inDisclosure && target["_sd"] != nil || inDisclosure && target["arr"] != nil {
				// the defect sits in the value of a disclosed claim
				delete(x.payload, "zzTarget")

				d := mk("zzTarget", target)
				l, _ := x.payload["_sd"].([]any)
				x.payload["_sd"] = append(append([]any{}, l...), d)

				c.Class("nested")
			}

			jwt := i.sign(x.payload, nil)
			if len(ds) > 1 {
				ds = rapid.Permutation(ds).Draw(rt, "perm")
			}

			iss, pres := combine(jwt, ds)

			if _, err := i.verifier(pres); err == nil {
				rt.Fatalf("verifier accepts (%s)\npayload %s\ndisclosures %s", kind, vk.JS(x.payload), decodeAll(ds))
			}

			if holderToo {
				if _, err := i.holder(iss); err == nil {
					rt.Fatalf("holder accepts (%s)\npayload %s\ndisclosures %s", kind, vk.JS(x.payload), decodeAll(ds))
				}
			}

			c.NonTrivial(kind, x.payload, ds)
			c.Sample(map[string]any{"defect": kind, "payload": x.payload, "disclosures": decodeAll(ds)})
		})
}

func decodeDisclosure(d string) ([]byte, []any) {
	b := vk.UnB64(d)

	v, err := vk.DecodeJSON(b)
	if err != nil {
		panic(err)
	}

	return b, v.([]any)
}

// TestC09_Token alters the issuer-signed token of a library-issued SD-JWT, its headers, algorithm and time claims.
func TestC09_Token(t *testing.T) {
	vk.Check(t, "time claims, typ and algorithm against the verifier's policy, and altered issuer tokens; non-trivial = all; distinct by (policy, token)",
		2500, 40000, func(rt *rapid.T, c *vk.Case) {
			i := newSDIssuer(rt)
			x := drawIndep(rt)

			for _, k := range []string{"exp", "nbf", "iat"} {
				delete(x.payload, k)
			}

			leeway := time.Duration(rapid.IntRange(0, 4).Draw(rt, "leeway")) * time.Hour
			now := time.Now()
			ok := true
			margin := 20 * time.Minute
			hdr := map[string]any{}
			// bad is drawn per claim: 0 absent, 1 well inside, 2 inside the leeway, 3 outside
			for _, k := range []string{"exp", "nbf", "iat"} {
				sign := time.Duration(1)
				if k == "exp" {
					sign = -1
				}

				switch rapid.IntRange(0, 5).Draw(rt, k) {
				case 1, 2:
					x.payload[k] = now.Add(-sign * 100 * time.Hour).Unix()
				case 3, 4:
					x.payload[k] = now.Add(sign * (leeway - margin)).Unix()
				case 5:
					x.payload[k] = now.Add(sign * (leeway + vk.Pick(rt, "by", margin, 50*time.Second, 5*time.Minute))).Unix()
					ok = false

					c.Class("time violated: %s", k)
				}
			}

			typ := vk.Pick(rt, "typ", "", "vc+sd-jwt", "JWT", "at+jwt", "other", "VC+SD-JWT", "jwt", "vc+sd-jwt ")
			nearTyp := typ == "jwt" || typ == "vc+sd-jwt "
			if typ == "other" || nearTyp {
				ok = false // not a JWT type at all

				c.Class("foreign typ")
			}

			if typ != "" {
				hdr["typ"] = typ
			}

			expectTyp := vk.Pick(rt, "expectTyp", "", "", "vc+sd-jwt", "JWT")
			if expectTyp != "" && expectTyp != typ {
				ok = false

				c.Class("typ violated")
			}

			algs := [][]string{sdAlgs, {string(i.key.Kind)}, {"RS256", "PS256"}, {}}[rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "algs")]
			allowed := false

			for _, a := range algs {
				allowed = allowed || a == string(i.key.Kind)
			}

			ok = ok && allowed

			jwt := i.sign(x.payload, hdr)

			if ok && rapid.Bool().Draw(rt, "alter") {
				ok = false
				parts := strings.Split(jwt, ".")
				p := without(x.payload)
				p["iss"] = i.iss

				switch vk.Pick(rt, "how", "payload", "sig", "none", "otherkey", "iss", "nosig", "newdigest") {
				case "payload":
					p["zz"] = 1
					jwt = parts[0] + "." + vk.B64(vk.MustJSON(p)) + "." + parts[2]
				case "newdigest":
					l, _ := p["_sd"].([]any)
					p["_sd"] = append(append([]any{}, l...), x.disclose("forged", true))
					jwt = parts[0] + "." + vk.B64(vk.MustJSON(p)) + "." + parts[2]
				case "sig":
					b := vk.UnB64(parts[2])
					b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] ^= 4
					jwt = parts[0] + "." + parts[1] + "." + vk.B64(b)
				case "none":
					jwt = vk.B64(vk.MustJSON(map[string]any{"alg": "none", "kid": i.kid, "typ": typ})) + "." + parts[1] + "."
					algs = append(append([]string{}, algs...), "none")
				case "otherkey":
					jwt = vk.MakeJWS(map[string]any{"alg": string(i.key.Kind), "kid": i.kid, "typ": typ}, vk.MustJSON(p), vk.GetKey(i.key.Kind, "c"))
				case "iss":
					p["iss"] = "did:example:other"
					jwt = vk.MakeJWS(map[string]any{"alg": string(i.key.Kind), "kid": i.kid, "typ": typ}, vk.MustJSON(p), i.key)
				case "nosig":
					jwt = parts[0] + "." + parts[1] + "."
				}

				c.Class("altered")
			}

			iss, pres := combine(jwt, x.discl)

			_, verr := i.verifier(pres, verifier.WithIssuerSigningAlgorithms(algs), verifier.WithLeewayForClaimsValidation(leeway), verifier.WithExpectedTypHeader(expectTyp))
			if (verr == nil) != ok && time.Since(now) < 20*time.Second {
				rt.Fatalf("expected acceptance %v, verifier says %v\npayload %s header %s leeway %v typ %q algs %v", ok, verr, vk.JS(x.payload), vk.JS(hdr), leeway, expectTyp, algs)
			}

			_, herr := i.holder(iss, holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms(algs),
				holder.WithLeewayForClaimsValidation(leeway), holder.WithExpectedTypHeader(expectTyp))

			if time.Since(now) > 20*time.Second {
				rt.Skip("too slow to tell the time")
			}

			if (herr == nil) != ok {
				rt.Fatalf("expected acceptance %v, holder says %v\npayload %s header %s leeway %v typ %q algs %v", ok, herr, vk.JS(x.payload), vk.JS(hdr), leeway, expectTyp, algs)
			}

			c.Class("ok=%v", ok)
			c.NonTrivial(jwt, algs, expectTyp, int(leeway))
			c.Sample(map[string]any{"payload": x.payload, "header": hdr, "leeway": leeway.String(), "typ": expectTyp, "algs": algs, "accepted": ok})
		})
}

// TestC09_HolderRefusesBinding: a holder must not accept a token that already carries a key binding (V5 rule), nor present foreign disclosures.
func TestC09_HolderRefusesBinding(t *testing.T) {
	vk.Check(t, "combined format ending in a JWS given to the holder, and selections that are not the issuer's; non-trivial = all; distinct by token", 500, 8000,
		func(rt *rapid.T, c *vk.Case) {
			i := newSDIssuer(rt)
			x := drawIndep(rt)
			jwt := i.sign(x.payload, nil)
			iss, pres := combine(jwt, x.discl)
			kb := vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "kb+jwt"}, []byte(`{"nonce":"n"}`), vk.GetKey(vk.EdDSA, "b"))

			for _, v5 := range []bool{true, false} {
				if _, err := i.holder(pres+kb, holder.WithSDJWTV5Validation(v5)); err == nil {
					rt.Fatalf("holder accepts a token with key binding (v5 validation %v)", v5)
				}
			}

			if len(x.discl) > 0 {
				foreign := vk.B64(vk.MustJSON([]any{"salt", "forged", true}))
				if p, err := holder.CreatePresentation(iss, append([]string{foreign}, x.discl...)); err == nil {
					rt.Fatalf("presentation with a foreign disclosure made: %s", p)
				}
			}

			if _, err := holder.CreatePresentation(jwt, nil); err == nil {
				c.Class("presentation without disclosures")
			}

			c.NonTrivial(pres)
		})
}

var _ = common.SDKey

package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	gojose "github.com/go-jose/go-jose/v3/jwt"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// markLeaves replaces every string leaf and member name by a unique marker.
func markLeaves(v any, n *int) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for _, k := range vk.SortedKeys(x) {
			*n++
			out[fmt.Sprintf("nameMARK%dX", *n)] = markLeaves(x[k], n)
		}

		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = markLeaves(e, n)
		}

		return out
	default:
		*n++

		return fmt.Sprintf("valueMARK%dX", *n)
	}
}

func leafMarks(v any, out *[]string) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			*out = append(*out, k)
			leafMarks(e, out)
		}
	case []any:
		for _, e := range x {
			leafMarks(e, out)
		}
	case string:
		*out = append(*out, x)
	}
}

func digestLists(v any, out *[][]string, elems *[]string) {
	switch x := v.(type) {
	case map[string]any:
		if l, ok := x["_sd"].([]any); ok {
			var ds []string
			for _, d := range l {
				ds = append(ds, fmt.Sprint(d))
			}

			*out = append(*out, ds)
		}

		if d, ok := x["..."].(string); ok && len(x) == 1 {
			*elems = append(*elems, d)
		}

		for k, e := range x {
			if k != "_sd" {
				digestLists(e, out, elems)
			}
		}
	case []any:
		for _, e := range x {
			digestLists(e, out, elems)
		}
	}
}

type issuedSD struct {
	payload     map[string]any
	disclosures []string
	nodes       []*sdNode
	undisclosed int
	lists       [][]string
	digests     map[string]bool
}

func inspectSD(rt *rapid.T, s *sdCase) *issuedSD {
	tok := s.issue(rt)

	combined, err := tok.Serialize(false)
	if err != nil {
		rt.Fatalf("%v", err)
	}

	parts := strings.Split(combined, "~")
	o := &issuedSD{payload: payloadOf(parts[0]), disclosures: parts[1:], digests: map[string]bool{}}

	var unused int

	o.nodes, unused, o.undisclosed, err = walkSD(o.payload, o.disclosures, s.hash)
	if err != nil || unused != 0 {
		rt.Fatalf("issued token inconsistent: %v; %d disclosures without digest\n%s", err, unused, s.describe())
	}

	var elems []string

	digestLists(o.payload, &o.lists, &elems)

	for _, n := range o.nodes {
		digestLists(n.arr[len(n.arr)-1], &o.lists, &elems)
	}

	for _, l := range o.lists {
		for _, d := range l {
			o.digests[d] = true
		}
	}

	for _, d := range elems {
		o.digests[d] = true
	}

	return o
}

// TestC08_Hiding checks what the signed part tells.
func TestC08_Hiding(t *testing.T) {
	vk.Check(t, "claims whose names and leaf values are unique markers, all issuing options, issued twice; non-trivial = at least two disclosures; distinct by (options, claims)",
		2500, 60000, func(rt *rapid.T, c *vk.Case) {
			s := drawSD(rt)
			n := 0
			s.claims = markLeaves(s.claims, &n).(map[string]any)

			var paths []string

			sdPaths("", s.claims, &paths)
			paths = vk.Sorted(paths)
			s.nonSD = sample(rt, "nonSD2", paths, 3)

			if s.version == common.SDJWTVersionV5 {
				s.always = sample(rt, "always2", paths, 2)
				s.recursive = sample(rt, "recursive2", paths, 2)
			}

			a, b := inspectSD(rt, s), inspectSD(rt, s)
			text := string(vk.MustJSON(a.payload))

			for _, node := range a.nodes {
				orig, ok := lookupSeg(s.claims, node.seg)
				if !ok {
					rt.Fatalf("disclosure at %s belongs to no claim", segText(node.seg))
				}

				var marks []string

				leafMarks(orig, &marks)

				if len(node.arr) == 3 {
					marks = append(marks, node.arr[1].(string))
				}

				for _, m := range marks {
					// a visible part of the claim may only occur under a visible path, which a hidden claim has none of
					if strings.Contains(text, `"`+m+`"`) {
						rt.Fatalf("hidden claim %s shows %q in the signed payload %s\n%s", segText(node.seg), m, text, s.describe())
					}
				}
			}

			// what no disclosure covers is there in plain
			hidden := map[string]bool{}
			for _, node := range a.nodes {
				hidden[node.seg] = true
			}

			var vis []string

			leafMarks(expectSD("", s.claims, hidden), &vis)

			for _, m := range vis {
				if !strings.Contains(text, `"`+m+`"`) {
					rt.Fatalf("visible %q missing from payload %s\n%s", m, text, s.describe())
				}
			}

			if alg := a.payload["_sd_alg"]; alg != map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}[s.hash] {
				rt.Fatalf("_sd_alg %v for %v", alg, s.hash)
			}

			if s.decoys {
				if a.undisclosed < 1 {
					rt.Fatalf("no decoys\n%s", s.describe())
				}
			} else if a.undisclosed != 0 {
				rt.Fatalf("%d digests without disclosure", a.undisclosed)
			}

			for _, l := range a.lists {
				for _, d := range l {
					if raw, err := base64.RawURLEncoding.DecodeString(d); err != nil || len(raw) != s.hash.Size() {
						rt.Fatalf("digest %q is none of %v", d, s.hash)
					}
				}
			}

			salts := map[string]bool{}

			for _, o := range []*issuedSD{a, b} {
				for _, node := range o.nodes {
					if salts[node.salt] {
						rt.Fatalf("salt %q used twice", node.salt)
					}

					salts[node.salt] = true

					if raw, err := base64.RawURLEncoding.DecodeString(node.salt); err != nil || len(raw) < 16 {
						rt.Fatalf("salt %q has less than 128 bits", node.salt)
					}
				}
			}

			for d := range a.digests {
				if b.digests[d] {
					rt.Fatalf("digest %s occurs in two issuances", d)
				}
			}

			if d := vk.Diff(stripDigests(a.payload), stripDigests(b.payload)); d != "" {
				rt.Fatalf("two issuances of the same claims differ in more than digests: %s", d)
			}

			c.Class("v%d structured=%v decoys=%v", s.version, s.structured, s.decoys)

			if len(a.nodes) > 1 {
				c.NonTrivial(s.describe())
			}

			c.Sample(s.describe())
		})
}

func stripDigests(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}

		for k, e := range x {
			switch k {
			case "_sd", "...":
				out[k] = "digests"
			default:
				out[k] = stripDigests(e)
			}
		}

		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = stripDigests(e)
		}

		return out
	default:
		return v
	}
}

// TestC08_Order looks whether the position in a digest list tells which claim or whether it is a decoy.
func TestC08_Order(t *testing.T) {
	vk.Check(t, "a few claims issued 60 times; non-trivial = all; distinct by (version, number of claims, decoys)",
		12, 60, func(rt *rapid.T, c *vk.Case) {
			n := vk.Size(rt, "claims", 1, 4)
			s := &sdCase{version: vk.Pick(rt, "version", common.SDJWTVersionV2, common.SDJWTVersionV5), hash: crypto.SHA256, iss: "did:example:i",
				kid: "did:example:i#k1", key: vk.GetKey(vk.EdDSA, "a"), claims: map[string]any{}}
			s.decoys = n == 1 || rapid.Bool().Draw(rt, "decoys")

			for i := 0; i < n; i++ {
				s.claims[fmt.Sprintf("c%d", i)] = i
			}

			const rounds = 60

			firstReal, lastReal, inOrder, sameAsDisclosures := 0, 0, 0, 0

			for i := 0; i < rounds; i++ {
				o := inspectSD(rt, s)
				if len(o.lists) != 1 {
					rt.Fatalf("%d digest lists", len(o.lists))
				}

				names := map[string]string{}
				for _, node := range o.nodes {
					names[node.digest] = node.arr[1].(string)
				}

				l := o.lists[0]
				if s.decoys && (len(l) <= n || len(l) > n+8) {
					rt.Fatalf("%d digests for %d claims", len(l), n)
				}

				if names[l[0]] != "" {
					firstReal++
				}

				if names[l[len(l)-1]] != "" {
					lastReal++
				}

				var order, disc []string

				for _, d := range l {
					if names[d] != "" {
						order = append(order, names[d])
					}
				}

				for _, node := range o.nodes {
					disc = append(disc, node.arr[1].(string))
				}

				if strings.Join(order, ",") == strings.Join(vk.Sorted(order), ",") {
					inOrder++
				}

				if strings.Join(order, ",") == strings.Join(disc, ",") {
					sameAsDisclosures++
				}
			}

			// each of these events has, per round, a chance of at most 5/6 if the order is random: (5/6)^60 < 2e-5
			if s.decoys && (firstReal == rounds || firstReal == 0 || lastReal == rounds || lastReal == 0) {
				rt.Fatalf("decoys always sit at one end: real digest first %d times, last %d times of %d", firstReal, lastReal, rounds)
			}

			if n > 1 && (inOrder == rounds || sameAsDisclosures == rounds) {
				rt.Fatalf("digests are always in the order of the claims (%d) or of the disclosures (%d)", inOrder, sameAsDisclosures)
			}

			c.NonTrivial(int(s.version), n, s.decoys)
		})
}

// TestC08_Options: salts and marshalling of the caller's are used, and registered claims given as options stay visible.
func TestC08_Options(t *testing.T) {
	vk.Check(t, "registered claims given as options next to hidden claims; non-trivial = all; distinct by options", 800, 16000, func(rt *rapid.T, c *vk.Case) {
		s := drawSD(rt)
		hk := vk.GetKey(vk.EdDSA, "b")
		registered := []string{"sub", "aud", "jti", "id", "cnf", "iss", "_sd_alg", "iat", "nbf", "exp"}

		for _, k := range registered {
			delete(s.claims, k)
		}

		want := map[string]any{"iss": s.iss}
		given := []string{}
		set := func(name string) bool {
			if !rapid.Bool().Draw(rt, name) {
				return false
			}

			given = append(given, name)

			return true
		}

		var opts []issuer.NewOpt

		texts := []struct {
			name string
			opt  func(string) issuer.NewOpt
		}{{"sub", issuer.WithSubject}, {"aud", issuer.WithAudience}, {"jti", issuer.WithJTI}, {"id", issuer.WithID}}

		for _, x := range texts {
			if set(x.name) {
				v := vk.Str().Draw(rt, x.name+" value")
				opts = append(opts, x.opt(v))

				if v != "" {
					want[x.name] = v
				}
			}
		}

		times := []struct {
			name string
			opt  func(*gojose.NumericDate) issuer.NewOpt
		}{{"iat", issuer.WithIssuedAt}, {"nbf", issuer.WithNotBefore}, {"exp", issuer.WithExpiry}}

		for _, x := range times {
			if set(x.name) {
				n := gojose.NumericDate(rapid.Int64Range(1, 4102444800).Draw(rt, x.name+" value"))
				opts = append(opts, x.opt(&n))
				want[x.name] = int64(n)
			}
		}

		if set("cnf") {
			opts = append(opts, issuer.WithHolderPublicKey(hk.JWK))
			want["cnf"] = map[string]any{"jwk": hk.JWK}
		}

		salts := map[string]int{}

		if set("salt") {
			opts = append(opts, issuer.WithSaltFnc(func() (string, error) {
				salt := fmt.Sprintf("salt-%d", len(salts))
				salts[salt] = 0

				return salt, nil
			}))
		}

		if set("marshaller") {
			opts = append(opts, issuer.WithJSONMarshaller(func(v any) ([]byte, error) { return json.MarshalIndent(v, " ", "\t") }))
		}

		tok := s.issue(rt, opts...)

		combined, err := tok.Serialize(false)
		if err != nil {
			rt.Fatalf("%v", err)
		}

		parts := strings.Split(combined, "~")
		p := payloadOf(parts[0])
		got := map[string]any{}

		for _, k := range registered {
			if v, ok := p[k]; ok && k != "_sd_alg" {
				got[k] = v
			}
		}

		if d := vk.Diff(want, got); d != "" {
			rt.Fatalf("registered claims: %s\noptions %q", d, given)
		}

		for _, disc := range parts[1:] {
			raw, err := base64.RawURLEncoding.DecodeString(disc)
			if err != nil {
				rt.Fatalf("disclosure %q: %v", disc, err)
			}

			var l []any
			if err := json.Unmarshal(raw, &l); err != nil || len(l) < 2 {
				rt.Fatalf("disclosure %q", raw)
			}

			if contains(given, "marshaller") != strings.Contains(string(raw), "\n") {
				rt.Fatalf("the disclosure %q was made with the wrong marshaller (options %q)", raw, given)
			}

			if contains(given, "salt") {
				salt, _ := l[0].(string)
				if n, ok := salts[salt]; !ok || n > 0 {
					rt.Fatalf("salt %q of a disclosure was not generated by the caller's function, or was used before", salt)
				}

				salts[salt]++
			}
		}

		// everything the holder gets fits the signed part
		claims, err := holder.Parse(combined, holder.WithSignatureVerifier(s.world.Checker()))
		if err != nil || len(claims) != len(parts)-1 {
			rt.Fatalf("the holder reads %d of %d claims: %v", len(claims), len(parts)-1, err)
		}

		c.Class("%d options", len(given))
		c.NonTrivial(s.describe(), given)
	})
}

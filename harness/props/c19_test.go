package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

var reSubmissionPath = regexp.MustCompile(`^\$(?:\.vp)?\.verifiableCredential\[(\d+)\]$`)

func drawWallet(rt *rapid.T, g peGen) []*peCred {
	var creds []*peCred
	for i := range vk.Size(rt, "creds", 1, 5) {
		creds = append(creds, g.draw(rt, i))
	}

	return creds
}

func walletOf(creds []*peCred) []*verifiable.Credential {
	var out []*verifiable.Credential
	for _, c := range creds {
		out = append(out, c.cred)
	}

	return out
}

func describeWallet(creds []*peCred) string {
	var b strings.Builder
	for i, c := range creds {
		fmt.Fprintf(&b, "\n  %d %s %s %s", i, c.form, c.mark, vk.JS(c.doc))

		if t, ok := c.text.(string); ok {
			b.WriteString("\n    " + t)
		}
	}

	return b.String()
}

// sameCredential tells whether what a presentation holds is the given credential.
func sameCredential(held any, c *peCred) bool {
	switch h := held.(type) {
	case string:
		want, _ := c.text.(string)
		a, b := strings.Split(strings.TrimSuffix(h, "~"), "~"), strings.Split(strings.TrimSuffix(want, "~"), "~")

		return a[0] == b[0] && vk.Same(strs(vk.Sorted(a)), strs(vk.Sorted(b)))
	case map[string]any:
		return c.form != "jwt" && c.form != "sdjwt" && vk.Same(h, c.doc)
	}

	return false
}

// unwrapToken gives the token of an enveloped credential.
func unwrapToken(e any) any {
	if m, ok := e.(map[string]any); ok && strings.Contains(vk.JS(m["type"]), "EnvelopedVerifiableCredential") {
		_, data, _ := strings.Cut(m["id"].(string), ",")

		return data
	}

	return e
}

// heldBy lists what the serialized presentation holds.
func heldBy(rt *rapid.T, vp *verifiable.Presentation) []any {
	raw, err := vp.MarshalJSON()
	if err != nil {
		rt.Fatalf("presentation: %v", err)
	}

	doc := decodeAny(raw)
	list, ok := doc["verifiableCredential"].([]any)

	if !ok {
		rt.Fatalf("presentation holds %s", vk.JS(doc["verifiableCredential"]))
	}

	for i, e := range list {
		list[i] = unwrapToken(e)
	}

	return list
}

// checkSubmission checks a built presentation (or list of them) against the reference.
func checkSubmission(rt *rapid.T, fail func(string, ...any), d *peDef, sat map[string][]*peCred, vps []*verifiable.Presentation,
	sub *presexch.PresentationSubmission, array bool) {
	var held [][]any
	for _, vp := range vps {
		held = append(held, heldBy(rt, vp))
	}

	if sub.ID == "" || sub.DefinitionID != "definition-1" {
		fail("submission %q is for definition %q", sub.ID, sub.DefinitionID)
	}

	set := map[string]bool{}
	used := map[string]bool{}
	chosen := map[string]int{}

	for _, m := range sub.DescriptorMap {
		vpIdx := 0

		switch {
		case array:
			if !strings.HasPrefix(m.Path, "$[") || !strings.HasSuffix(m.Path, "]") {
				fail("entry path %q does not name a presentation", m.Path)
			}

			vpIdx, _ = strconv.Atoi(m.Path[2 : len(m.Path)-1])
		case m.Path != "$":
			fail("entry path %q", m.Path)
		}

		if m.PathNested == nil || m.PathNested.ID != m.ID || vpIdx >= len(held) {
			fail("entry %s", vk.JS(m))
		}

		match := reSubmissionPath.FindStringSubmatch(m.PathNested.Path)
		if match == nil || strings.Contains(m.PathNested.Path, ".vp.") != (m.Format == presexch.FormatJWTVP) {
			fail("entry %s", vk.JS(m))
		}

		i, _ := strconv.Atoi(match[1])
		if i >= len(held[vpIdx]) {
			fail("entry %s points nowhere: the presentation holds %d credentials", vk.JS(m), len(held[vpIdx]))
		}

		ok := false
		for _, c := range sat[m.ID] {
			ok = ok || sameCredential(held[vpIdx][i], c)
		}

		if !ok {
			fail("entry %s points at a credential that does not satisfy descriptor %q: %s", vk.JS(m), m.ID,
				vk.JS(held[vpIdx][i]))
		}

		set[m.ID] = true
		chosen[m.ID]++
		used[fmt.Sprintf("%d/%d", vpIdx, i)] = true
	}

	if !d.met(set) {
		fail("the submitted descriptors %v do not meet the submission requirements", set)
	}

	for id, n := range chosen {
		if n != len(sat[id]) {
			fail("descriptor %q: %d credentials submitted, %d satisfy it", id, n, len(sat[id]))
		}
	}

	for v := range held {
		if array && len(held[v]) != 1 {
			fail("presentation %d of the array holds %d credentials", v, len(held[v]))
		}

		for i := range held[v] {
			if !used[fmt.Sprintf("%d/%d", v, i)] {
				fail("no entry points at credential %d of presentation %d", i, v)
			}
		}
	}
}

func submissionOf(rt *rapid.T, vp *verifiable.Presentation) *presexch.PresentationSubmission {
	raw, err := vp.MarshalJSON()
	if err != nil {
		rt.Fatalf("presentation: %v", err)
	}

	var doc struct {
		Submission *presexch.PresentationSubmission `json:"presentation_submission"`
		Types      []string                         `json:"type"`
	}

	if err := json.Unmarshal(raw, &doc); err != nil || doc.Submission == nil || !contains(doc.Types, "PresentationSubmission") {
		rt.Fatalf("presentation without submission: %s (%v)", raw, err)
	}

	return doc.Submission
}

func TestC19_Selection(t *testing.T) {
	vk.Check(t, "a definition is matched against a wallet", 3000, 60000, func(rt *rapid.T, c *vk.Case) {
		creds := drawWallet(rt, peGen{v2: vk.Coin(rt, "v2", 3), several: true, forms: []string{"plain", "ld", "ld", "jwt", "jwt", "sdjwt"}})
		d := peDefGen{}.draw(rt, creds)
		pd := d.definition(rt)

		sat := map[string][]*peCred{}

		var satIDs []string

		for _, desc := range d.descs {
			if s := d.selection(desc, creds); len(s) > 0 {
				sat[desc.id] = s
				satIDs = append(satIDs, desc.id)
			}
		}

		want := d.satisfiable(satIDs)

		c.Class("satisfiable %v", want)
		c.Class("requirements %v", len(d.reqs) > 0)
		c.Class("definition v2 %v", d.v2)
		c.NonTrivial(vk.JS(d.json()), len(creds), len(satIDs))
		c.Sample(map[string]any{"definition": d.json(), "credentials": len(creds), "satisfied": satIDs})

		fail := func(format string, args ...any) {
			rt.Fatalf("%s\ndefinition %s\nwallet%s\nreference: satisfied %v", fmt.Sprintf(format, args...), vk.JS(d.json()),
				describeWallet(creds), satIDs)
		}

		wallet := walletOf(creds)
		switch vk.Pick(rt, "call", "vp", "vp", "array", "match") {
		case "vp":
			vp, err := pd.CreateVP(wallet, vk.Loader())
			if (err == nil) != want {
				fail("CreateVP: %v, expected success %v", err, want)
			}

			if err == nil {
				checkSubmission(rt, fail, d, sat, []*verifiable.Presentation{vp}, submissionOf(rt, vp), false)
			}
		case "array":
			vps, sub, err := pd.CreateVPArray(wallet, vk.Loader())
			if (err == nil) != want {
				fail("CreateVPArray: %v, expected success %v", err, want)
			}

			if err == nil {
				checkSubmission(rt, fail, d, sat, vps, sub, true)
			}
		case "match":
			got, err := pd.MatchSubmissionRequirement(wallet, vk.Loader())
			if err != nil {
				fail("MatchSubmissionRequirement: %v", err)
			}

			if len(d.reqs) == 0 {
				if len(got) != 1 || len(got[0].Descriptors) != len(d.descs) {
					fail("MatchSubmissionRequirement gives %s", vk.JS(got))
				}

				checkMatched(fail, sat, creds, got[0].Descriptors)

				return
			}

			if len(got) != len(d.reqs) {
				fail("%d requirements matched", len(got))
			}

			for i, r := range d.reqs {
				checkRequirement(fail, d, r, got[i], sat, creds)
			}
		}
	})
}

func checkMatched(fail func(string, ...any), sat map[string][]*peCred, creds []*peCred, got []*presexch.MatchedInputDescriptor) {
	for _, g := range got {
		if len(g.MatchedVCs) != len(sat[g.ID]) {
			fail("descriptor %q: %d credentials matched, %d satisfy it", g.ID, len(g.MatchedVCs), len(sat[g.ID]))
		}

		for i, m := range g.MatchedVCs {
			if m != sat[g.ID][i].cred {
				fail("descriptor %q: matched credential %d is not the satisfying one", g.ID, i)
			}
		}
	}
}

func checkRequirement(fail func(string, ...any), d *peDef, r *peReq, got *presexch.MatchedSubmissionRequirement,
	sat map[string][]*peCred, creds []*peCred) {
	if string(got.Rule) != r.rule || got.Min != r.min || got.Max != r.max || r.rule == "pick" && got.Count != r.count ||
		len(got.Nested) != len(r.nested) {
		fail("requirement %s is reported as %s", vk.JS(r.json()), vk.JS(got))
	}

	for i, n := range r.nested {
		checkRequirement(fail, d, n, got.Nested[i], sat, creds)
	}

	var want []string

	for _, desc := range d.descs {
		if r.from != "" && contains(desc.groups, r.from) {
			want = append(want, desc.id)
		}
	}

	var have []string
	for _, g := range got.Descriptors {
		have = append(have, g.ID)
	}

	if !vk.Same(strs(want), strs(have)) {
		fail("requirement from %q has descriptors %v, expected %v", r.from, have, want)
	}

	checkMatched(fail, sat, creds, got.Descriptors)
}

func strs(s []string) []any {
	out := []any{}
	for _, e := range s {
		out = append(out, e)
	}

	return out
}

// Submissions that go wrong in known ways.
func TestC19_Findings(t *testing.T) {
	build := func(doc map[string]any) *verifiable.Credential {
		c, err := verifiable.ParseCredential(vk.MustJSON(doc), peCredOpts()...)
		if err != nil {
			return nil
		}

		return c
	}

	doc := func(id, name string) map[string]any {
		return map[string]any{
			"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL}, "type": []any{"VerifiableCredential"}, "id": id,
			"issuer": "did:ex:i", "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:s", "name": name},
		}
	}

	field := func(filter map[string]any) map[string]any {
		return map[string]any{"fields": []any{map[string]any{"path": []any{"$.credentialSubject.name"}, "filter": filter}}}
	}

	create := func(descs []any, wallet ...*verifiable.Credential) (*verifiable.Presentation, error) {
		pd := &presexch.PresentationDefinition{}
		if err := json.Unmarshal(vk.MustJSON(map[string]any{"id": "d", "input_descriptors": descs}), pd); err != nil {
			return nil, err
		}

		return pd.CreateVP(wallet, vk.Loader())
	}

	vk.Known(t, "filter-allof-siblings-ignored", func() bool {
		_, err := create([]any{map[string]any{"id": "a", "constraints": field(map[string]any{
			"const": "Bob", "allOf": []any{map[string]any{"type": "string"}},
		})}}, build(doc("urn:1", "Alice")))

		return err == nil
	})

	vk.Known(t, "credentials-sharing-an-id", func() bool {
		vp, err := create([]any{
			map[string]any{"id": "a", "constraints": field(map[string]any{"const": "Alice"})},
			map[string]any{"id": "b", "constraints": field(map[string]any{"const": "Bob"})},
		}, build(doc("urn:1", "Alice")), build(doc("urn:1", "Bob")))

		return err == nil && len(vp.Credentials()) == 1
	})
}

// Definitions that were once answered wrongly.
func TestC19_Regressions(t *testing.T) {
	vk.Enum(t, "definitions once answered wrongly", func(t *testing.T, next func() *vk.Case) {
		doc := func(name string) map[string]any {
			return map[string]any{
				"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL}, "type": []any{"VerifiableCredential"},
				"issuer": "did:ex:i", "issuanceDate": "2020-01-01T00:00:00Z",
				"credentialSubject": map[string]any{"id": "did:ex:s", "name": name},
			}
		}
		name := func(n string) map[string]any {
			return map[string]any{"fields": []any{map[string]any{"path": []any{"$.credentialSubject.name"}, "filter": map[string]any{"const": n}}}}
		}

		jwtOf := func(d map[string]any) string {
			return vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": "did:ex:i#k"},
				vk.MustJSON(map[string]any{"iss": "did:ex:i", "sub": "did:ex:s", "nbf": 1577836800, "vc": d}), vk.GetKey("EdDSA", "pe"))
		}
		proof := func(d map[string]any) map[string]any {
			d["proof"] = map[string]any{
				"type": "Ed25519Signature2018", "created": "2021-01-01T00:00:00Z", "proofPurpose": "assertionMethod",
				"verificationMethod": "did:ex:i#k", "proofValue": "zAAAA",
			}

			return d
		}

		for _, tc := range []struct {
			what   string
			pd     map[string]any
			wallet [][]byte
			want   int // credentials submitted, or 0 for no solution
		}{
			{"the second accepted format", map[string]any{
				"format": map[string]any{
					"ldp_vc": map[string]any{"proof_type": []any{"Ed25519Signature2018"}}, "jwt_vc": map[string]any{"alg": []any{"EdDSA"}},
				},
				"input_descriptors": []any{map[string]any{"id": "a", "constraints": name("Bob")}},
			}, [][]byte{vk.MustJSON(proof(doc("Alice"))), []byte(jwtOf(doc("Bob")))}, 1},
			{"credentials without an id", map[string]any{"input_descriptors": []any{
				map[string]any{"id": "a", "constraints": name("Bob")}, map[string]any{"id": "b", "constraints": name("Alice")},
			}}, [][]byte{vk.MustJSON(doc("Alice")), vk.MustJSON(doc("Bob"))}, 2},
			{"text filter over a JWT date", map[string]any{"input_descriptors": []any{map[string]any{
				"id": "a", "constraints": map[string]any{"fields": []any{map[string]any{
					"path": []any{"$.issuanceDate"}, "filter": map[string]any{"type": "string", "pattern": "^2020"},
				}}},
			}}}, [][]byte{[]byte(jwtOf(doc("Alice")))}, 1},
			{"number filter over a JWT date", map[string]any{"input_descriptors": []any{map[string]any{
				"id": "a", "constraints": map[string]any{"fields": []any{map[string]any{
					"path": []any{"$.issuanceDate"}, "filter": map[string]any{"type": "number", "minimum": 1577836801},
				}}},
			}}}, [][]byte{[]byte(jwtOf(doc("Alice")))}, 0},
			{"constraints without fields", map[string]any{"input_descriptors": []any{map[string]any{
				"id": "a", "constraints": map[string]any{"subject_is_issuer": "preferred"},
			}}}, [][]byte{vk.MustJSON(doc("Alice"))}, 1},
		} {
			c := next()
			c.NonTrivial(tc.what)

			tc.pd["id"] = "d"

			pd := &presexch.PresentationDefinition{}
			if err := json.Unmarshal(vk.MustJSON(tc.pd), pd); err != nil {
				t.Fatalf("%s: %v", tc.what, err)
			}

			var wallet []*verifiable.Credential

			for _, b := range tc.wallet {
				cred, err := verifiable.ParseCredential(b, peCredOpts()...)
				if err != nil {
					t.Fatalf("%s: %v", tc.what, err)
				}

				wallet = append(wallet, cred)
			}

			vp, err := pd.CreateVP(wallet, vk.Loader())

			switch {
			case tc.want == 0 && err == nil:
				t.Fatalf("%s: a presentation was made", tc.what)
			case tc.want > 0 && (err != nil || len(vp.Credentials()) != tc.want):
				t.Fatalf("%s: %v", tc.what, err)
			}
		}
	})
}

package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// fulfils is the reference for one entry of a submission.
func (d *peDef) fulfils(desc *peDesc, c *peCred, anySchema bool) bool {
	format := d.format
	if desc.format != nil {
		format = desc.format
	}

	ok := format == nil
	for k := range format {
		ok = ok || format.admits(k, c)
	}

	return ok && (anySchema || desc.schemaOK(c)) && desc.constraintsOK(c)
}

// subEntry is an entry of a submission: descriptor and credential (by position) it names.
type subEntry struct {
	id string
	vp int
	at int
	// a path that leads nowhere
	broken string
}

// submitted is what is handed to the verifier.
type submitted struct {
	held    [][]*peCred
	entries []subEntry
	defID   string
}

// drop removes a submission from wherever it is.
func TestC21_Match(t *testing.T) {
	vk.Check(t, "a submission is matched against its definition", 2500, 50000, func(rt *rapid.T, c *vk.Case) {
		creds := drawWallet(rt, peGen{v2: vk.Coin(rt, "v2", 3), forms: []string{"plain", "ld", "ld", "jwt", "jwt", "sdjwt"}})
		d := peDefGen{maxDesc: 3}.draw(rt, creds)
		pd := d.definition(rt)
		byID := map[string]*peDesc{}

		for _, desc := range d.descs {
			byID[desc.id] = desc
		}

		fail := func(format string, args ...any) {
			rt.Fatalf("%s\ndefinition %s\nwallet%s", fmt.Sprintf(format, args...), vk.JS(d.json()), describeWallet(creds))
		}

		array := vk.Coin(rt, "array", 3)

		var (
			vps []*verifiable.Presentation
			sub *presexch.PresentationSubmission
		)

		if array {
			var err error

			vps, sub, err = pd.CreateVPArray(walletOf(creds), vk.Loader())
			if err != nil {
				c.Class("unsatisfiable")

				return
			}
		} else {
			vp, err := pd.CreateVP(walletOf(creds), vk.Loader())
			if err != nil {
				c.Class("unsatisfiable")

				return
			}

			vps = []*verifiable.Presentation{vp}
			sub = submissionOf(rt, vp)
		}

		s := submitted{defID: sub.DefinitionID}

		for _, vp := range vps {
			var held []*peCred

			for i, h := range heldBy(rt, vp) {
				for _, cr := range creds {
					if sameCredential(h, cr) {
						held = append(held, cr)

						break
					}
				}

				if len(held) != i+1 {
					fail("the presentation holds %s", vk.JS(h))
				}
			}

			s.held = append(s.held, held)
		}

		for _, m := range sub.DescriptorMap {
			e := subEntry{id: m.ID}

			if array {
				if _, err := fmt.Sscanf(m.Path, "$[%d]", &e.vp); err != nil {
					fail("entry path %q", m.Path)
				}
			}

			match := reSubmissionPath.FindStringSubmatch(m.PathNested.Path)
			if _, err := fmt.Sscan(match[1], &e.at); err != nil {
				fail("entry path %q", m.PathNested.Path)
			}

			s.entries = append(s.entries, e)
		}

		// what goes wrong
		missing, noContext, noType := false, false, false
		entry := func() int { return rapid.IntRange(0, len(s.entries)-1).Draw(rt, "entry") }
		change := vk.Pick(rt, "change", "none", "none", "none", "missing", "definition", "no definition", "drop", "drop", "nowhere", "remap",
			"remap", "unknown", "swap", "swap", "context", "type", "extra")

		switch change {
		case "missing":
			missing = true
		case "definition":
			s.defID = vk.Pick(rt, "defID", "definition-2", "-", "1", "urn:definition-1", "definition-1x", "definition-10", "x-definition-1", "DEFINITION-1", "definition_1",
				vk.Near(rt, "nearID", "definition-1"), vk.Near(rt, "nearID2", "definition-1"))
		case "no definition":
			s.defID = ""
		case "drop": // every entry of a descriptor
			id := s.entries[entry()].id

			var left []subEntry

			for _, e := range s.entries {
				if e.id != id {
					left = append(left, e)
				}
			}

			s.entries = left
		case "nowhere":
			e := &s.entries[entry()]
			e.broken = vk.Pick(rt, "broken", "index", "member", "syntax", "outer", "presentation", "presentation")
		case "remap":
			e := &s.entries[entry()]
			e.vp = rapid.IntRange(0, len(s.held)-1).Draw(rt, "vp")
			e.at = rapid.IntRange(0, len(s.held[e.vp])-1).Draw(rt, "at")
		case "extra":
			v := rapid.IntRange(0, len(s.held)-1).Draw(rt, "vp")
			s.entries = append(s.entries, subEntry{
				id: rapid.SampledFrom(d.descs).Draw(rt, "desc").id,
				vp: v, at: rapid.IntRange(0, len(s.held[v])-1).Draw(rt, "at"),
			})
		case "unknown":
			s.entries[entry()].id = vk.Pick(rt, "id", "d9", "", "D0")
		case "swap": // another credential of the wallet in the same place
			v := rapid.IntRange(0, len(s.held)-1).Draw(rt, "vp")
			i := rapid.IntRange(0, len(s.held[v])-1).Draw(rt, "at")
			s.held[v][i] = creds[rapid.IntRange(0, len(creds)-1).Draw(rt, "other")]
		case "context":
			noContext = true
		case "type":
			noType = true
		}

		// the expected answer
		anySchema := vk.Coin(rt, "any schema", 4)
		want := !missing && !noContext && !noType && (s.defID == "" || s.defID == "definition-1")
		set := map[string]bool{}
		why := ""

		for _, e := range s.entries {
			desc := byID[e.id]

			if desc == nil || e.broken != "" || !d.fulfils(desc, s.held[e.vp][e.at], anySchema) {
				want = false
				why = fmt.Sprintf("entry %+v", e)
			}

			set[e.id] = true
		}

		if !d.met(set) {
			want, why = false, "requirements"
		}

		// the presentations, with or without the submission inside
		merged := vk.Pick(rt, "merged", "", "", "typed", "map")
		if array && len(s.held) > 1 && merged == "" {
			merged = vk.Pick(rt, "arrayMerged", "typed", "map")
		}

		if change == "missing" {
			merged = ""
		}

		form := vk.Pick(rt, "form", "object", "json", "json", "jwt", "cwt")
		v2 := false

		for _, cr := range creds {
			v2 = v2 || cr.doc["validFrom"] != nil
		}

		// a token is addressed as such, or like the presentation in it
		subDoc := s.doc(array, (form == "jwt" || form == "cwt") && !vk.Coin(rt, "plainPaths", 4))

		var list []*verifiable.Presentation

		for i, held := range s.held {
			vp := buildSubmission(rt, held, subDoc, form, v2, i, merged != "" || missing, noContext, noType)
			list = append(list, vp)
		}

		// or just as it was made
		if direct := vps[0]; form == "object" && change == "none" && merged == "" && !array &&
			!strings.Contains(sub.DescriptorMap[0].PathNested.Path, ".vp.") {
			direct.ID = "urn:vp:0"
			list = vps
			c.Class("as made")
		}

		c.Class("change %s", change)
		c.Class("form %s", form)
		c.Class("expected %v", want)
		c.NonTrivial(change, form, merged, vk.JS(d.json()))
		c.Sample(map[string]any{"change": change, "form": form, "submission": subDoc, "expected": want})

		opts := []presexch.MatchOption{presexch.WithCredentialOptions(peCredOpts()...)}

		if anySchema {
			opts = append(opts, presexch.WithDisableSchemaValidation())
		}

		switch merged {
		case "typed":
			typed := &presexch.PresentationSubmission{}
			if err := json.Unmarshal(vk.MustJSON(subDoc), typed); err != nil {
				rt.Fatalf("submission: %v", err)
			}

			opts = append(opts, presexch.WithMergedSubmission(typed))
		case "map":
			opts = append(opts, presexch.WithMergedSubmissionMap(vk.CloneMap(subDoc)))
		}

		got, err := pd.Match(list, vk.Loader(), opts...)
		if (err == nil) != want {
			fail("Match after %q (%s, %s): %v, expected acceptance %v (%s)\nsubmission %s", change, form, merged, err, want, why, vk.JS(subDoc))
		}

		if err != nil {
			return
		}

		if len(got) != len(s.entries) {
			fail("%d credentials matched, %d entries", len(got), len(s.entries))
		}

		left := append([]subEntry{}, s.entries...)

		for _, m := range got {
			found := false

			for i, e := range left {
				if m.DescriptorID == e.id && m.PresentationID == fmt.Sprintf("urn:vp:%d", e.vp) && peSame(m.Credential, s.held[e.vp][e.at]) {
					left = append(left[:i], left[i+1:]...)
					found = true

					break
				}
			}

			if !found {
				fail("descriptor %q of %q is answered with a credential the submission does not name: %s\nsubmission %s", m.DescriptorID,
					m.PresentationID, vk.JS(m.Credential.ToRawJSON()), vk.JS(subDoc))
			}
		}
	})
}

// peSame tells whether a matched credential is the given one.
func peSame(m *verifiable.Credential, c *peCred) bool {
	raw, err := m.MarshalJSON()
	if err != nil {
		return false
	}

	var held any
	if json.Unmarshal(raw, &held) != nil {
		return false
	}

	return sameCredential(unwrapToken(held), c)
}

func (s *submitted) doc(array, jwtPaths bool) map[string]any {
	entries := []any{}

	for _, e := range s.entries {
		root := "$"
		if jwtPaths {
			root = "$.vp"
		}

		outer := "$"
		if array {
			outer = fmt.Sprintf("$[%d]", e.vp)
		}

		inner := fmt.Sprintf("%s.verifiableCredential[%d]", root, e.at)

		switch e.broken {
		case "index":
			inner = fmt.Sprintf("%s.verifiableCredential[%d]", root, len(s.held[e.vp]))
		case "member":
			inner = fmt.Sprintf("%s.verifiableCredentials[%d]", root, e.at)
		case "syntax":
			inner = fmt.Sprintf("%s.verifiableCredential[%d", root, e.at)
		case "outer":
			outer += ".nothing"
		case "presentation":
			outer = fmt.Sprintf("$[%d]", len(s.held)+e.at)
			if e.at%2 == 1 {
				outer = fmt.Sprintf("$[-%d]", len(s.held)+e.at)
			}
		}

		entries = append(entries, map[string]any{
			"id": e.id, "format": "ldp_vp", "path": outer,
			"path_nested": map[string]any{"id": e.id, "format": "ldp_vc", "path": inner},
		})
	}

	out := map[string]any{"id": "submission-1", "descriptor_map": entries}
	if s.defID != "" {
		out["definition_id"] = s.defID
	}

	return out
}

func buildSubmission(rt *rapid.T, held []*peCred, sub map[string]any, form string, v2 bool, i int,
	noSubmission, noContext, noType bool) *verifiable.Presentation {
	ctx := []any{verifiable.V1ContextURI}
	if v2 {
		ctx[0] = verifiable.V2ContextURI
	}

	if !noContext {
		ctx = append(ctx, presexch.PresentationSubmissionJSONLDContextIRI)
	}

	types := []any{"VerifiablePresentation"}
	if !noType {
		types = append(types, presexch.PresentationSubmissionJSONLDType)
	}

	list := []any{}

	for _, c := range held {
		e := c.text
		if t, ok := e.(string); ok && v2 {
			e = map[string]any{
				"@context": verifiable.V2ContextURI, "type": vk.Pick[any](rt, "envType", "EnvelopedVerifiableCredential", []any{"EnvelopedVerifiableCredential"}),
				"id": "data:application/vc-ld+" + strings.TrimPrefix(c.form, "sd") + "," + t,
			}

			if c.form == "sdjwt" {
				e.(map[string]any)["id"] = "data:application/vc-ld+sd-jwt," + t
			}
		}

		list = append(list, e)
	}

	doc := map[string]any{"@context": ctx, "type": types, "id": fmt.Sprintf("urn:vp:%d", i), "verifiableCredential": list}
	if !noSubmission {
		doc["presentation_submission"] = sub
	}

	data := vk.MustJSON(doc)

	if form == "jwt" {
		data = []byte(vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": "did:ex:h#k"},
			vk.MustJSON(map[string]any{"iss": "did:ex:h", "jti": doc["id"], "vp": doc}), vk.GetKey("EdDSA", "pe")))
	}

	if form == "cwt" {
		var plain any
		if err := json.Unmarshal(data, &plain); err != nil {
			rt.Fatal(err)
		}

		data = signCWT(rt, map[any]any{"iss": "did:ex:h", "jti": doc["id"], "vp": plain}, c05VM{id: "did:ex:h#k", key: vk.GetKey("EdDSA", "pe")})
		if rapid.Bool().Draw(rt, "hex") {
			data = []byte(hex.EncodeToString(data))
		}
	}

	vp, err := verifiable.ParsePresentation(data, vpOpts(verifiable.WithPresDisabledProofCheck())...)
	if err != nil {
		rt.Fatalf("presentation %s: %v", data, err)
	}

	return vp
}

// Submissions that were once answered wrongly.
func TestC21_Regressions(t *testing.T) {
	doc := func() map[string]any {
		return map[string]any{
			"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential"}, "id": "urn:1",
			"issuer": "did:ex:i", "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:s"},
		}
	}
	entry := func() map[string]any {
		return map[string]any{"id": "a", "format": "ldp_vp", "path": "$", "path_nested": map[string]any{
			"id": "a", "format": "ldp_vc", "path": "$.verifiableCredential[0]",
		}}
	}

	vk.Enum(t, "submissions once answered wrongly", func(t *testing.T, next func() *vk.Case) {
		for _, tc := range []struct {
			what    string
			desc    map[string]any
			ctx     []any
			entries any
			ok      bool
		}{
			{"plain", map[string]any{"id": "a"}, nil, []any{entry()}, true},
			{"null entry", map[string]any{"id": "a"}, nil, []any{entry(), nil}, false},
			{"only a null entry", map[string]any{"id": "a"}, nil, []any{nil}, false},
			{"no map", map[string]any{"id": "a"}, nil, nil, false},
			{"map is no list", map[string]any{"id": "a"}, nil, entry(), false},
			{"context does not load", map[string]any{
				"id": "a", "schema": []any{map[string]any{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential"}},
			}, []any{verifiable.V1ContextURI, "https://nowhere.example/ctx"}, []any{entry()}, false},
		} {
			c := next()
			c.NonTrivial(tc.what)

			pd := &presexch.PresentationDefinition{}
			if err := json.Unmarshal(vk.MustJSON(map[string]any{"id": "d", "input_descriptors": []any{tc.desc}}), pd); err != nil {
				t.Fatal(err)
			}

			cred := doc()
			if tc.ctx != nil {
				cred["@context"] = tc.ctx
			}

			vp, err := verifiable.ParsePresentation(vk.MustJSON(map[string]any{
				"@context": []any{verifiable.V1ContextURI, presexch.PresentationSubmissionJSONLDContextIRI},
				"type":     []any{"VerifiablePresentation", "PresentationSubmission"}, "verifiableCredential": []any{cred},
				"presentation_submission": map[string]any{"id": "s", "definition_id": "d", "descriptor_map": tc.entries},
			}), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(vk.Loader()))
			if err != nil {
				t.Fatalf("%s: %v", tc.what, err)
			}

			got, err := pd.Match([]*verifiable.Presentation{vp}, vk.Loader(), presexch.WithCredentialOptions(
				verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(vk.Loader()), verifiable.WithCredDisableValidation()))
			if (err == nil) != tc.ok || tc.ok && len(got) != 1 {
				t.Fatalf("%s: %v, %d credentials", tc.what, err, len(got))
			}
		}
	})
}

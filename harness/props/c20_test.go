package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// drawC20Object is an object without empty containers, of members with plain names.
func drawC20Object(rt *rapid.T, depth int) map[string]any {
	out := map[string]any{}

	for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "members"); i < n; i++ {
		out[vk.Pick(rt, "member", "name", "age", "degree", "school", "tags", "given-name", "items", "kind", "x1", "_y")] =
			drawC20Value(rt, depth)
	}

	return out
}

func drawC20Value(rt *rapid.T, depth int) any {
	switch n := rapid.IntRange(0, 9).Draw(rt, "value"); {
	case n < 2 && depth > 0:
		return drawC20Object(rt, depth-1)
	case n < 4 && depth > 0:
		list := []any{}

		l := rapid.IntRange(1, 3).Draw(rt, "elements")
		if vk.Coin(rt, "many", 6) {
			l = rapid.IntRange(9, 13).Draw(rt, "elements")
		}

		for i := 0; i < l; i++ {
			switch {
			case vk.Coin(rt, "object element", 3):
				list = append(list, drawC20Object(rt, 0))
			default:
				list = append(list, drawC20Value(rt, 0))
			}
		}

		return list
	case n == 4:
		return rapid.Bool().Draw(rt, "bool")
	case n == 5:
		return float64(rapid.IntRange(0, 99).Draw(rt, "number"))
	default:
		return "v" + strconv.Itoa(rapid.IntRange(0, 9999).Draw(rt, "text"))
	}
}

// drawLocation picks a place of a document and gives a path that selects it.
func drawLocation(rt *rapid.T, v any, maxDepth int) pePath {
	var out pePath

	for maxDepth > 0 {
		maxDepth--

		switch x := v.(type) {
		case map[string]any:
			if len(x) == 0 {
				return out
			}

			k := vk.Pick(rt, "step", vk.SortedKeys(x)...)
			out = append(out, peSeg{name: k})
			v = x[k]
		case []any:
			if len(x) == 0 || vk.Coin(rt, "whole array", 3) {
				return out
			}

			i := rapid.IntRange(0, len(x)-1).Draw(rt, "index")

			if vk.Coin(rt, "every", 4) || len(x) > 8 && vk.Coin(rt, "every of many", 2) {
				out = append(out, peSeg{kind: 2})
			} else {
				out = append(out, peSeg{kind: 1, idx: i})
			}

			v = x[i]
		default:
			return out
		}

		if vk.Coin(rt, "stop", 4) {
			return out
		}
	}

	return out
}

// located evaluates a path to the places it selects.
func (p pePath) located(v any) []string {
	type at struct {
		seg string
		v   any
	}

	cur := []at{{v: v}}

	for _, s := range p {
		var next []at

		for _, c := range cur {
			switch x := c.v.(type) {
			case map[string]any:
				for k, e := range x {
					if s.kind == 2 || s.kind == 0 && k == s.name {
						next = append(next, at{c.seg + "\x00" + k, e})
					}
				}
			case []any:
				for i, e := range x {
					if s.kind == 2 || s.kind == 1 && s.idx == i {
						next = append(next, at{fmt.Sprintf("%s\x01%d", c.seg, i), e})
					}
				}
			}
		}

		cur = next
	}

	var out []string
	for _, c := range cur {
		out = append(out, c.seg)
	}

	return out
}

// touches: one of the two places contains the other, or they are the same.
func touches(a, b string) bool { return segUnder(a, b) || segUnder(b, a) }

func segUnder(a, b string) bool {
	return a == b || strings.HasPrefix(a, b) && (a[len(b)] == 0 || a[len(b)] == 1)
}

// c20Field is a requested field.
type c20Field struct {
	paths    []pePath
	optional bool
}

func (f *c20Field) json(rt *rapid.T, vcPrefix bool) map[string]any {
	var list []any

	for _, p := range f.paths {
		s := p.render(rt, false)
		if vcPrefix && vk.Coin(rt, "vc prefix", 3) {
			s = "$.vc" + s[1:]
		}

		list = append(list, s)
	}

	out := map[string]any{"path": list}
	if f.optional {
		out["optional"] = true
	}

	return out
}

// requested gives what must and what may be shown of a document.
func (f *c20Field) requested(doc map[string]any) (must, may []string, ok bool) {
	for _, p := range f.paths {
		l := p.located(doc)
		if len(l) > 0 && must == nil {
			must = l
		}

		may = append(may, l...)
	}

	return must, may, must != nil || f.optional
}

// TestC20_SDJWT: which disclosures of an SD-JWT credential go into a presentation.
func TestC20_SDJWT(t *testing.T) {
	vk.Check(t, "limited disclosure is required of a credential with at least one disclosure to hide and one to show",
		2500, 50000, func(rt *rapid.T, c *vk.Case) {
			subject := drawC20Object(rt, 3)
			subject["id"] = "did:ex:s0"
			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential", "Licence"},
				"id": "https://c.example/1", "issuer": "did:ex:iss0", "issuanceDate": "2021-01-01T00:00:00Z",
				"credentialSubject": subject,
			}

			if vk.Coin(rt, "noID", 5) {
				delete(doc, "id")
			}

			var paths []string

			sdPaths("", subject, &paths)
			sort.Strings(paths)

			s := &sdCase{version: vk.Pick(rt, "version", common.SDJWTVersionV2, common.SDJWTVersionV5), structured: true,
				claims: subject, hash: rapid.SampledFrom(sdHashes).Draw(rt, "hash")}
			opts := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(s.version), verifiable.MakeSDJWTWithHash(s.hash)}

			s.nonSD = append(sample(rt, "nonSD", paths, 2), "id")
			opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(s.nonSD))

			if s.version == common.SDJWTVersionV5 {
				s.always, s.recursive = sample(rt, "always", paths, 2), sample(rt, "recursive", paths, 3)
				opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects(s.always),
					verifiable.MakeSDJWTWithRecursiveClaimsObjects(s.recursive))
			}

			if len(s.model()) == 0 {
				return
			}

			plain, err := verifiable.ParseCredential(vk.MustJSON(doc), peCredOpts()...)
			if err != nil {
				rt.Fatalf("credential: %v", err)
			}

			combined, err := plain.MakeSDJWT(joseSigner(vk.GetKey("EdDSA", "pe"), "did:ex:iss0#k", ""), "did:ex:iss0#k", opts...)
			if err != nil {
				rt.Fatalf("MakeSDJWT: %v", err)
			}

			inspect := func(text string) []*sdNode {
				cfp := common.ParseCombinedFormatForPresentation(strings.TrimSuffix(text, "~") + "~")
				nodes, _, _, err := walkSD(subjectOf(rt, cfp.SDJWT), cfp.Disclosures, s.hash)
				if err != nil {
					rt.Fatalf("presented credential is inconsistent: %v\n%s", err, text)
				}

				return nodes
			}

			all := inspect(combined)

			// the holder may have been given a part of it only; array elements are kept, so that places keep their index
			gone := map[*sdNode]bool{}
			hidden := map[string]bool{}

			if vk.Coin(rt, "part", 3) {
				text := common.ParseCombinedFormatForIssuance(combined).SDJWT

				for _, n := range all { // parents come first
					if gone[n.parent] || len(n.arr) == 3 && vk.Coin(rt, "gone", 4) {
						gone[n], hidden[n.seg] = true, true
						continue
					}

					text += "~" + n.enc
				}

				if text += "~"; len(gone) == len(all) {
					return
				}

				combined = text
			}

			cred, err := verifiable.ParseCredential([]byte(combined), peCredOpts()...)
			if err != nil {
				rt.Fatalf("SD-JWT credential: %v", err)
			}

			shown := vk.CloneMap(doc)
			shown["credentialSubject"] = clearEmptyRef(expectSD("", doc["credentialSubject"], hidden))

			// the definition
			type desc struct {
				id     string
				limit  string
				fields []*c20Field
			}

			var descs []*desc

			for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "descriptors"); i < n; i++ {
				d := &desc{id: fmt.Sprintf("d%d", i), limit: vk.Pick(rt, "limit", "required", "required", "required", "preferred", "")}

				for j, m := 0, vk.Size(rt, "fields", 1, 3); j < m; j++ {
					f := &c20Field{}

					for k, l := 0, rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "paths"); k < l; k++ {
						p := append(pePath{{name: "credentialSubject"}}, drawLocation(rt, subject, 5)...)

						if vk.Coin(rt, "other", 8) {
							p = parsePEPath(vk.Pick(rt, "path", "issuer", "type[1]", "credentialSubject.missing", "id", "credentialSubject.id",
								"credentialSubject.degree.name", "credentialSubject.tags[*]"))
						}

						f.paths = append(f.paths, p)
					}

					f.optional = vk.Coin(rt, "optional", 4)
					d.fields = append(d.fields, f)
				}

				descs = append(descs, d)
			}

			var list []any

			satisfied := true

			for _, d := range descs {
				var fields []any

				for _, f := range d.fields {
					fields = append(fields, f.json(rt, true))

					if _, _, ok := f.requested(shown); !ok {
						satisfied = false
					}
				}

				cons := map[string]any{"fields": fields}
				if d.limit != "" {
					cons["limit_disclosure"] = d.limit
				}

				list = append(list, map[string]any{"id": d.id, "constraints": cons})
			}

			pd := c20Definition(rt, list)

			fail := func(format string, args ...any) {
				rt.Fatalf("%s\ndefinition %s\nholder has %s\n%s", fmt.Sprintf(format, args...), vk.JS(list), vk.JS(shown), s.describe())
			}

			checkShown := func(d *desc, text string) {
				var must, may []string

				for _, f := range d.fields {
					a, b, _ := f.requested(shown)
					must, may = append(must, a...), append(may, b...)
				}

				got := map[string]bool{}
				for _, n := range inspect(text) {
					got[n.seg] = true
				}

				hid, show := 0, 0

				for _, n := range all {
					seg := "\x00credentialSubject" + n.seg
					required, allowed := d.limit != "required", d.limit != "required"

					for _, m := range must {
						required = required || touches(seg, m)
					}

					for _, m := range may {
						allowed = allowed || touches(seg, m)
					}

					if gone[n] {
						required, allowed = false, false
					}

					if required {
						show++
					} else if !allowed {
						hid++
					}

					if got[n.seg] && !allowed {
						fail("descriptor %s: %s is revealed, which was not requested", d.id, segText(n.seg))
					}

					if !got[n.seg] && required {
						fail("descriptor %s: %s was requested but is not revealed", d.id, segText(n.seg))
					}
				}

				c.Class("limit %q hidden=%v shown=%v", d.limit, hid > 0, show > 0)

				if d.limit == "required" && hid > 0 && show > 0 {
					c.NonTrivial(d.id, vk.JS(list), text[:20], len(all), hid, show)
				}
			}

			c.Sample(map[string]any{"subject": subject, "descriptors": list, "satisfied": satisfied, "disclosures": len(all)})

			before, _ := cred.MarshalAsJSONLD()
			tokenBefore := vk.JS(cred)

			switch how := vk.Pick(rt, "call", "vp", "array", "match"); how {
			case "vp", "array":
				var (
					vps []*verifiable.Presentation
					sub *presexch.PresentationSubmission
				)

				if how == "vp" {
					var vp *verifiable.Presentation

					vp, err = pd.CreateVP([]*verifiable.Credential{cred}, vk.Loader(), presexch.WithSDCredentialOptions(peCredOpts()...))
					if err == nil {
						vps, sub = []*verifiable.Presentation{vp}, submissionOf(rt, vp)
					}
				} else {
					vps, sub, err = pd.CreateVPArray([]*verifiable.Credential{cred}, vk.Loader(),
						presexch.WithSDCredentialOptions(peCredOpts()...))
				}

				if (err == nil) != satisfied {
					fail("%s: %v, expected success %v", how, err, satisfied)
				}

				if err != nil {
					break
				}

				seen := 0

				for _, m := range sub.DescriptorMap {
					e := submittedCredential(rt, vps, m)

					text, ok := e.(string)
					if !ok {
						fail("entry %s points at %s", vk.JS(m), vk.JS(e))
					}

					for _, d := range descs {
						if d.id == m.ID {
							checkShown(d, text)

							seen++
						}
					}
				}

				if seen != len(descs) {
					fail("entries %s", vk.JS(sub.DescriptorMap))
				}
			case "match":
				for _, apply := range []bool{true, false} {
					o := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(peCredOpts()...)}
					if apply {
						o = append(o, presexch.WithSelectiveDisclosureApply())
					}

					res, err := pd.MatchSubmissionRequirement([]*verifiable.Credential{cred}, vk.Loader(), o...)
					if err != nil {
						fail("match: %v", err)
					}

					for i, d := range descs {
						m := res[0].Descriptors[i]
						want := 1

						for _, f := range d.fields {
							if _, _, ok := f.requested(shown); !ok {
								want = 0
							}
						}

						if m.ID != d.id || len(m.MatchedVCs) != want {
							fail("match: descriptor %s has %d credentials, want %d", m.ID, len(m.MatchedVCs), want)
						}

						if want == 1 && apply {
							text, err := m.MatchedVCs[0].MarshalWithDisclosure(verifiable.DiscloseAll())
							if err != nil {
								fail("match: %v", err)
							}

							checkShown(d, text)
						}
					}
				}
			}

			after, _ := cred.MarshalAsJSONLD()
			if string(before) != string(after) || tokenBefore != vk.JS(cred) {
				fail("the holder's credential changed from\n%s to\n%s", tokenBefore, vk.JS(cred))
			}
		})
}

// subjectOf is the subject as the token has it.
func subjectOf(rt *rapid.T, token string) map[string]any {
	root := payloadOf(token)
	if v, ok := root["vc"].(map[string]any); ok {
		root = v
	}

	sub, ok := root["credentialSubject"].(map[string]any)
	if !ok {
		rt.Fatalf("no subject in %s", token)
	}

	return sub
}

// c20Definition makes a definition of descriptors.
func c20Definition(rt *rapid.T, list []any) *presexch.PresentationDefinition {
	d := &presexch.PresentationDefinition{}
	if err := jsonInto(map[string]any{"id": "definition-1", "input_descriptors": list}, d); err != nil {
		rt.Fatalf("definition: %v", err)
	}

	return d
}

// submittedCredential is the credential an entry of a submission points at.
func submittedCredential(rt *rapid.T, vps []*verifiable.Presentation, m *presexch.InputDescriptorMapping) any {
	idx := 0
	if m.Path != "$" {
		idx, _ = strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(m.Path, "$["), "]"))
	}

	if m.PathNested == nil || idx >= len(vps) {
		rt.Fatalf("entry %s", vk.JS(m))
	}

	match := reSubmissionPath.FindStringSubmatch(m.PathNested.Path)
	if match == nil {
		rt.Fatalf("entry %s", vk.JS(m))
	}

	i, _ := strconv.Atoi(match[1])
	held := heldBy(rt, vps[idx])

	if i >= len(held) {
		rt.Fatalf("entry %s points nowhere", vk.JS(m))
	}

	return unwrapToken(held[i])
}

// pickPlaces is the document reduced to the given places; arrays keep the selected elements only.
func pickPlaces(v any, seg string, locs []string, predicates map[string]bool) (any, bool) {
	for _, l := range locs {
		if segUnder(seg, l) {
			if predicates[l] {
				return true, true
			}

			return v, true
		}
	}

	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}

		for k, e := range x {
			if r, ok := pickPlaces(e, seg+"\x00"+k, locs, predicates); ok {
				out[k] = r
			}
		}

		return out, len(out) > 0
	case []any:
		out := []any{}

		for i, e := range x {
			if r, ok := pickPlaces(e, fmt.Sprintf("%s\x01%d", seg, i), locs, predicates); ok {
				out = append(out, r)
			}
		}

		return out, len(out) > 0
	}

	return nil, false
}

// replacePlaces is the document with true at the given places.
func replacePlaces(v any, seg string, locs map[string]bool) any {
	if locs[seg] {
		return true
	}

	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = replacePlaces(e, seg+"\x00"+k, locs)
		}

		return out
	case []any:
		out := []any{}
		for i, e := range x {
			out = append(out, replacePlaces(e, fmt.Sprintf("%s\x01%d", seg, i), locs))
		}

		return out
	}

	return v
}

// limitedDoc is what a credential without selective disclosure is reduced to.
func limitedDoc(doc map[string]any, locs []string, predicates map[string]bool) map[string]any {
	out := map[string]any{}

	picked, _ := pickPlaces(doc, "", locs, predicates)
	if p, ok := picked.(map[string]any); ok {
		out = p
	}

	for _, k := range []string{"id", "type", "@context", "issuer", "issuanceDate"} {
		if v, ok := doc[k]; ok {
			out[k] = v
		}
	}

	// every subject keeps its id
	subjects := func(v any) []any {
		if l, ok := v.([]any); ok {
			return l
		}

		return []any{v}
	}

	var list []any

	for i, s := range subjects(doc["credentialSubject"]) {
		seg := "\x00credentialSubject"
		if _, ok := doc["credentialSubject"].([]any); ok {
			seg += fmt.Sprintf("\x01%d", i)
		}

		m := map[string]any{}
		if p, ok := pickPlaces(s, seg, locs, predicates); ok {
			m, _ = vk.Clone(p).(map[string]any)
		}

		if id, ok := s.(map[string]any)["id"]; ok {
			m["id"] = id
		}

		list = append(list, m)
	}

	out["credentialSubject"] = list

	return out
}

// copied copies the objects and arrays of a document.
func copied(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = copied(e)
		}

		return out
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, copied(e))
		}

		return out
	}

	return v
}

func comparable20(doc map[string]any) map[string]any {
	out := without(doc, "proof")

	list, ok := out["credentialSubject"].([]any)
	if !ok {
		list = []any{out["credentialSubject"]}
	}

	var subjects []any

	for _, s := range list {
		if id, ok := s.(string); ok {
			s = map[string]any{"id": id}
		}

		subjects = append(subjects, s)
	}

	out["credentialSubject"] = subjects

	return copied(out).(map[string]any)
}

// TestC20_Plain: credentials that cannot hide anything themselves.
func TestC20_Plain(t *testing.T) {
	vk.Check(t, "a reduced credential is made, or the credential has to be left out", 2500, 50000,
		func(rt *rapid.T, c *vk.Case) {
			p := &peCred{form: vk.Pick(rt, "form", "plain", "ld", "jwt")}
			v2 := vk.Coin(rt, "v2", 3)
			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential", "Licence"},
				"id": "https://c.example/1", "issuer": "did:ex:iss0", "issuanceDate": "2021-01-01T00:00:00Z",
			}

			if v2 {
				doc["@context"] = []any{verifiable.V2ContextURI}
				doc["validFrom"] = "2021-01-01T00:00:00Z"
				delete(doc, "issuanceDate")
			}

			if vk.Coin(rt, "issuer object", 3) {
				doc["issuer"] = map[string]any{"id": "did:ex:iss0", "name": "Office"}
			}

			if vk.Coin(rt, "noID", 5) {
				delete(doc, "id")
			}

			var subjects []any

			for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "subjects"); i < n; i++ {
				s := drawC20Object(rt, 2)
				s["id"] = vk.Pick(rt, "sid", "did:ex:s0", "did:ex:s1", "did:ex:iss0")
				subjects = append(subjects, s)
			}

			if doc["credentialSubject"] = subjects[0]; len(subjects) > 1 || p.form != "jwt" && vk.Coin(rt, "list", 5) {
				doc["credentialSubject"] = subjects
			}

			if len(subjects) > 1 && p.form == "jwt" {
				p.form = "ld"
			}

			p.doc = doc
			p.secure(rt)
			doc = p.doc

			own := false
			for _, s := range subjects {
				own = own || s.(map[string]any)["id"] == "did:ex:iss0"
			}

			limit := vk.Pick(rt, "limit", "required", "required", "preferred", "")

			var (
				fields    []any
				must, may []string
			)

			predicates := map[string]bool{}
			satisfied := true

			for j, m := 0, vk.Size(rt, "fields", 1, 3); j < m; j++ {
				f := &c20Field{optional: vk.Coin(rt, "optional", 5)}
				loc := drawLocation(rt, doc["credentialSubject"], 5)
				f.paths = []pePath{append(pePath{{name: "credentialSubject"}}, loc...)}

				if vk.Coin(rt, "other", 6) {
					f.paths = []pePath{parsePEPath(vk.Pick(rt, "path", "issuer", "type[1]", "type", "credentialSubject.missing", "id",
						"issuanceDate", "validFrom"))}
				}

				js := f.json(rt, p.jwt())
				a, b, ok := f.requested(doc)
				satisfied = satisfied && ok

				if strings.HasPrefix(strings.Join(a, ""), "\x00credentialSubject") && vk.Coin(rt, "predicate", 4) {
					for _, l := range a {
						// the subject as a whole and its id are no predicates
						if n := strings.Count(l, "\x00"); n < 2 || strings.HasSuffix(l, "\x00id") {
							return
						}

						predicates[l] = true
					}

					delete(js, "optional")
					js["predicate"] = "required"
					vals := f.paths[0].eval(doc)

					var v any = vals
					if len(vals) == 1 {
						v = vals[0]
					}

					js["filter"] = map[string]any{"type": jsonType(v)}
				}

				fields = append(fields, js)
				must, may = append(must, a...), append(may, b...)
			}

			for l := range predicates {
				for _, m := range may {
					if m != l && touches(m, l) {
						return // the fields contradict each other
					}
				}
			}

			count := map[string]int{}
			for _, m := range may {
				if count[m]++; predicates[m] && count[m] > 1 {
					return
				}
			}

			cons := map[string]any{"fields": fields}
			if limit != "" {
				cons["limit_disclosure"] = limit
			}

			list := []any{map[string]any{"id": "d0", "constraints": cons}}
			pd := c20Definition(rt, list)

			anyPredicate := len(predicates) > 0
			want := satisfied && (limit != "required" || own || anyPredicate)

			fail := func(format string, args ...any) {
				rt.Fatalf("%s\ndefinition %s\n%s credential %s", fmt.Sprintf(format, args...), vk.JS(list), p.form, vk.JS(doc))
			}

			before := vk.JS(p.cred.ToRawJSON())
			matched := vk.Coin(rt, "matched", 3)

			var (
				vp  *verifiable.Presentation
				res []*presexch.MatchedSubmissionRequirement
				err error
			)

			if matched {
				res, err = pd.MatchSubmissionRequirement([]*verifiable.Credential{p.cred}, vk.Loader(),
					presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(peCredOpts()...))
				if err != nil || len(res) != 1 || len(res[0].Descriptors) != 1 || (len(res[0].Descriptors[0].MatchedVCs) == 1) != want {
					fail("MatchSubmissionRequirement: %v %s, expected a match %v", err, vk.JS(res), want)
				}
			} else {
				vp, err = pd.CreateVP([]*verifiable.Credential{p.cred}, vk.Loader(), presexch.WithSDCredentialOptions(peCredOpts()...))

				if (err == nil) != want {
					fail("CreateVP: %v, expected success %v", err, want)
				}
			}

			if after := vk.JS(p.cred.ToRawJSON()); after != before {
				fail("the holder's credential changed from\n%s to\n%s", before, after)
			}

			c.Class("%s limit=%q predicate=%v own=%v used=%v", p.form, limit, anyPredicate, own, want)
			c.Sample(map[string]any{"credential": doc, "descriptors": list, "used": want})

			if limit == "required" || anyPredicate {
				c.NonTrivial(vk.JS(doc), vk.JS(list))
			}

			if err != nil {
				return
			}

			if !want {
				return
			}

			var got map[string]any

			if matched {
				got = vk.CloneMap(res[0].Descriptors[0].MatchedVCs[0].ToRawJSON())
			} else {
				m := submissionOf(rt, vp).DescriptorMap
				if len(m) != 1 {
					fail("entries %s", vk.JS(m))
				}

				switch x := submittedCredential(rt, []*verifiable.Presentation{vp}, m[0]).(type) {
				case map[string]any:
					got = x
				case string:
					got = vk.CloneMap(p.parse(rt, []byte(x)).ToRawJSON())
				}
			}

			var ok bool

			switch {
			case limit == "required":
				ok = vk.Same(comparable20(limitedDoc(doc, must, predicates)), comparable20(got))
			case anyPredicate:
				ok = vk.Same(comparable20(replacePlaces(doc, "", predicates).(map[string]any)), comparable20(got))
			default:
				ok = vk.Same(comparable20(doc), comparable20(got))
			}

			if !ok {
				fail("limit %q, predicates %v: the presentation shows %s\nreference %s", limit, keysOf(predicates), vk.JS(got),
					vk.JS(comparable20(limitedDoc(doc, must, predicates))))
			}
		})
}

func jsonInto(v any, out any) error { return json.Unmarshal(vk.MustJSON(v), out) }

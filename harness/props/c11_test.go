package props

import (
	"encoding/json"
	"fmt"
	"testing"

	util "github.com/trustbloc/did-go/doc/util/time"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

func asList(v any) []any {
	switch x := v.(type) {
	case nil:
		return nil
	case []any:
		return x
	default:
		return []any{x}
	}
}

// refContents lists what a credential document says, read straight from the document.
func refContents(doc map[string]any) map[string]any {
	out := map[string]any{"id": "", "issuer": nil, "from": nil, "until": nil, "evidence": doc["evidence"]}
	if id, ok := doc["id"].(string); ok {
		out["id"] = id
	}

	out["types"] = append([]any{}, asList(doc["type"])...)

	var plain, custom []any

	for i, c := range asList(doc["@context"]) {
		if _, ok := c.(string); !ok {
			custom = asList(doc["@context"])[i:]

			break
		}

		plain = append(plain, c)
	}

	out["context"], out["customContext"] = append([]any{}, plain...), append([]any{}, custom...)

	switch iss := doc["issuer"].(type) {
	case string:
		out["issuer"] = map[string]any{"id": iss, "custom": map[string]any{}}
	case map[string]any:
		out["issuer"] = map[string]any{"id": iss["id"], "custom": without(iss, "id")}
	}

	subs := []any{}

	if doc["credentialSubject"] != nil {
		for _, s := range asList(doc["credentialSubject"]) {
			switch x := s.(type) {
			case string:
				subs = append(subs, map[string]any{"id": x, "custom": map[string]any{}})
			case map[string]any:
				id, _ := x["id"].(string)
				subs = append(subs, map[string]any{"id": id, "custom": without(x, "id")})
			}
		}
	}

	out["subjects"] = subs

	first := func(names ...string) any {
		for _, n := range names {
			if doc[n] != nil {
				return doc[n]
			}
		}

		return nil
	}

	out["from"], out["until"] = first("issuanceDate", "validFrom"), first("expirationDate", "validUntil")

	typed := func(v any) []any {
		r := []any{}

		for _, e := range asList(v) {
			m := e.(map[string]any)
			id, _ := m["id"].(string)
			r = append(r, map[string]any{"id": id, "type": m["type"], "custom": without(m, "id", "type")})
		}

		return r
	}

	out["status"], out["schemas"], out["terms"] = typed(doc["credentialStatus"]), typed(doc["credentialSchema"]), typed(doc["termsOfUse"])
	out["refresh"] = typed(doc["refreshService"])

	rel := []any{}

	for _, e := range asList(doc["relatedResource"]) {
		m := e.(map[string]any)
		s := func(k string) string { v, _ := m[k].(string); return v }
		rel = append(rel, map[string]any{"id": s("id"), "sri": s("digestSRI"), "mb": s("digestMultibase"), "media": s("mediaType")})
	}

	out["related"] = rel

	return out
}

func cf(m map[string]any) map[string]any {
	if m == nil {
		return map[string]any{}
	}

	return m
}

func typedView(l []verifiable.TypedID) []any {
	r := []any{}
	for _, t := range l {
		r = append(r, map[string]any{"id": t.ID, "type": t.Type, "custom": cf(t.CustomFields)})
	}

	return r
}

func timeView(t *util.TimeWrapper) any {
	if t == nil {
		return nil
	}

	return t.FormatToString()
}

// contentsView is the same listing made from the library's contents.
func contentsView(c verifiable.CredentialContents) map[string]any {
	strs := func(l []string) []any {
		r := []any{}
		for _, s := range l {
			r = append(r, s)
		}

		return r
	}

	out := map[string]any{
		"id": c.ID, "types": strs(c.Types), "context": strs(c.Context), "customContext": append([]any{}, c.CustomContext...),
		"from": timeView(c.Issued), "until": timeView(c.Expired), "evidence": c.Evidence,
		"schemas": typedView(c.Schemas), "terms": typedView(c.TermsOfUse), "issuer": nil,
	}

	if c.Issuer != nil {
		out["issuer"] = map[string]any{"id": c.Issuer.ID, "custom": cf(c.Issuer.CustomFields)}
	}

	var st []verifiable.TypedID
	for _, s := range c.Status {
		st = append(st, *s)
	}

	out["status"] = typedView(st)
	out["refresh"] = []any{}

	if c.RefreshService != nil {
		out["refresh"] = typedView([]verifiable.TypedID{*c.RefreshService})
	}

	subs := []any{}
	for _, s := range c.Subject {
		subs = append(subs, map[string]any{"id": s.ID, "custom": cf(s.CustomFields)})
	}

	out["subjects"] = subs
	rel := []any{}

	for _, r := range c.RelatedResources {
		rel = append(rel, map[string]any{"id": r.Id, "sri": r.DigestSRI, "mb": r.DigestMultiBase, "media": r.MediaType})
	}

	out["related"] = rel

	return out
}

// meaning rewrites a document into the spelling-independent form: single-element lists of the
// members that may be given as one or many become the element.
func meaning(doc map[string]any) map[string]any {
	out := map[string]any{}

	for k, v := range doc {
		switch k {
		case "@context":
			out[k] = asList(v)

			continue
		case "type", "credentialSubject", "credentialStatus", "credentialSchema", "termsOfUse", "proof", "evidence":
			if l, ok := v.([]any); ok && len(l) == 1 {
				v = l[0]
			}
		}

		out[k] = v
	}

	return out
}

func drawProof(rt *rapid.T, i int) map[string]any {
	p := map[string]any{
		"type": vk.Pick(rt, "proofType", "Ed25519Signature2018", "DataIntegrityProof"), "proofPurpose": "assertionMethod",
		"verificationMethod": "did:example:x#k" + fmt.Sprint(i), "created": timeText(rt, "created", false, true),
	}

	for i := rapid.IntRange(0, 2).Draw(rt, "proof#"); i > 0; i-- {
		p["p"+vk.Word().Draw(rt, "pname")] = vk.JSON(jsonOpts(1)).Draw(rt, "pvalue")
	}

	return p
}

func drawProofs(rt *rapid.T) []any {
	var out []any
	for i := rapid.IntRange(0, 3).Draw(rt, "proofs"); i > 0; i-- {
		out = append(out, drawProof(rt, i))
	}

	return out
}

func decodeObj(rt *rapid.T, b []byte) map[string]any {
	v, err := vk.DecodeJSON(b)
	if err != nil {
		rt.Fatalf("serialized form is no JSON: %v: %s", err, b)
	}

	m, ok := v.(map[string]any)
	if !ok {
		rt.Fatalf("serialized form is no object: %s", b)
	}

	return m
}

// shape names the optional features a document uses.
func shape(doc map[string]any) []string {
	var out []string

	for _, k := range []string{"credentialStatus", "credentialSchema", "evidence", "termsOfUse", "refreshService", "relatedResource", "proof"} {
		switch doc[k].(type) {
		case nil:
		case []any:
			out = append(out, k+"[]")
		default:
			out = append(out, k)
		}
	}

	if _, ok := doc["issuer"].(map[string]any); ok {
		out = append(out, "issuer{}")
	}

	out = append(out, fmt.Sprintf("subject %T", doc["credentialSubject"]))

	return out
}

func TestC11_RoundTrip(t *testing.T) {
	vk.Check(t, "the document has at least two optional features", 2500, 40000, func(rt *rapid.T, c *vk.Case) {
		loose := vk.Coin(rt, "not validated", 4)
		doc, v := credGen{Related: true, Loose: loose}.draw(rt)
		opts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}

		if loose {
			opts = append(opts, verifiable.WithCredDisableValidation())
		}

		switch ps := drawProofs(rt); {
		case len(ps) == 1 && rapid.Bool().Draw(rt, "single"):
			doc["proof"] = ps[0]
		case len(ps) > 0:
			doc["proof"] = ps
		case v == 1 && vk.Coin(rt, "nullproof", 8):
			doc["proof"] = nil
		}

		in := mustJSON(rt, doc)

		cred, err := verifiable.ParseCredential(in, parseOpts(opts...)...)
		if err != nil {
			rt.Fatalf("valid credential refused: %v\n%s", err, in)
		}

		want := meaning(doc)

		out, err := cred.MarshalJSON()
		if err != nil {
			rt.Fatalf("serialize: %v\n%s", err, in)
		}

		if d := vk.Diff(want, meaning(decodeObj(rt, out))); d != "" {
			rt.Fatalf("round trip changed %s\nin  %s\nout %s", d, in, out)
		}

		ld, err := cred.MarshalAsJSONLD()
		if err != nil {
			rt.Fatalf("MarshalAsJSONLD: %v", err)
		}

		if d := vk.Diff(want, meaning(decodeObj(rt, ld))); d != "" {
			rt.Fatalf("MarshalAsJSONLD changed %s\nin  %s\nout %s", d, in, ld)
		}

		again, err := verifiable.ParseCredential(out, parseOpts(opts...)...)
		if err != nil {
			rt.Fatalf("own output refused: %v\n%s", err, out)
		}

		out2, err := again.MarshalJSON()
		if err != nil {
			rt.Fatalf("serialize again: %v", err)
		}

		if d := vk.Diff(decodeObj(rt, out), decodeObj(rt, out2)); d != "" {
			rt.Fatalf("second round trip changed %s\n%s\n%s", d, out, out2)
		}

		if d := vk.Diff(refContents(doc), contentsView(cred.Contents())); d != "" {
			rt.Fatalf("contents differ from the document: %s\n%s", d, in)
		}

		if n := len(asList(doc["proof"])); len(cred.Proofs()) != n {
			rt.Fatalf("%d proofs, document has %d", len(cred.Proofs()), n)
		}

		viaMap, err := verifiable.ParseCredentialJSON(vk.CloneMap(doc), parseOpts(opts...)...)
		if err != nil {
			rt.Fatalf("ParseCredentialJSON refuses what ParseCredential accepts: %v\n%s", err, in)
		}

		out3, err := json.Marshal(viaMap)
		if err != nil {
			rt.Fatalf("serialize: %v", err)
		}

		if d := vk.Diff(decodeObj(rt, out), decodeObj(rt, out3)); d != "" {
			rt.Fatalf("ParseCredentialJSON differs from ParseCredential: %s", d)
		}

		for _, k := range vk.SortedKeys(doc) {
			if k[0] == 'x' && vk.Diff(doc[k], cred.CustomField(k)) != "" {
				rt.Fatalf("CustomField(%q) = %v", k, cred.CustomField(k))
			}
		}

		s := shape(doc)
		for _, f := range s {
			c.Class("%s", f)
		}

		c.Class("data model %d", v)

		if len(s) > 2 {
			c.NonTrivial(in)
			c.Sample(in)
		}
	})
}

// toContents builds contents from the independent listing of a document.
func toContents(rt *rapid.T, doc map[string]any) verifiable.CredentialContents {
	r := refContents(doc)
	out := verifiable.CredentialContents{ID: r["id"].(string), Evidence: r["evidence"]}

	for _, x := range r["context"].([]any) {
		out.Context = append(out.Context, x.(string))
	}

	if l := r["customContext"].([]any); len(l) > 0 {
		out.CustomContext = l
	}

	for _, x := range r["types"].([]any) {
		out.Types = append(out.Types, x.(string))
	}

	if m, ok := r["issuer"].(map[string]any); ok {
		out.Issuer = &verifiable.Issuer{ID: m["id"].(string), CustomFields: m["custom"].(map[string]any)}
	}

	for _, x := range r["subjects"].([]any) {
		m := x.(map[string]any)
		out.Subject = append(out.Subject, verifiable.Subject{ID: m["id"].(string), CustomFields: m["custom"].(map[string]any)})
	}

	tm := func(v any) *util.TimeWrapper {
		s, ok := v.(string)
		if !ok {
			return nil
		}

		w, err := util.ParseTimeWrapper(s)
		if err != nil {
			rt.Fatalf("VERIF-HARNESS-ERROR time %q: %v", s, err)
		}

		return w
	}

	out.Issued, out.Expired = tm(r["from"]), tm(r["until"])

	typed := func(v any) []verifiable.TypedID {
		var l []verifiable.TypedID

		for _, x := range v.([]any) {
			m := x.(map[string]any)
			l = append(l, verifiable.TypedID{ID: m["id"].(string), Type: m["type"].(string), CustomFields: m["custom"].(map[string]any)})
		}

		return l
	}

	out.Schemas, out.TermsOfUse = typed(r["schemas"]), typed(r["terms"])

	for _, s := range typed(r["status"]) {
		s := s
		out.Status = append(out.Status, &s)
	}

	if l := typed(r["refresh"]); len(l) > 0 {
		out.RefreshService = &l[0]
	}

	for _, x := range r["related"].([]any) {
		m := x.(map[string]any)
		out.RelatedResources = append(out.RelatedResources, verifiable.RelatedResource{
			Id: m["id"].(string), DigestSRI: m["sri"].(string), DigestMultiBase: m["mb"].(string), MediaType: m["media"].(string)})
	}

	return out
}

func customOf(doc map[string]any) map[string]any {
	out := map[string]any{}

	for k, v := range doc {
		if k[0] == 'x' {
			out[k] = v
		}
	}

	return out
}

func TestC11_FromContents(t *testing.T) {
	vk.Check(t, "the contents have at least two optional features", 2500, 40000, func(rt *rapid.T, c *vk.Case) {
		loose := vk.Coin(rt, "not validated", 4)
		doc, v := credGen{Related: true, Loose: loose}.draw(rt)
		opts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}

		if loose {
			opts = append(opts, verifiable.WithCredDisableValidation())
		}

		if s, ok := doc["credentialSubject"].(string); ok {
			doc["credentialSubject"] = map[string]any{"id": s} // contents do not say which spelling
		}

		if o, ok := doc["issuer"].(map[string]any); ok && len(o) == 1 {
			doc["issuer"] = o["id"]
		}

		var proofs []verifiable.Proof

		for _, p := range drawProofs(rt) {
			proofs = append(proofs, verifiable.Proof(p.(map[string]any)))
		}

		contents := toContents(rt, doc)
		custom := customOf(doc)
		before := vk.JS([]any{contentsView(contents), custom, proofs})

		var (
			cred *verifiable.Credential
			err  error
		)

		if len(proofs) == 0 {
			cred, err = verifiable.CreateCredential(contents, custom)
		} else {
			cred, err = verifiable.CreateCredentialWithProofs(contents, custom, proofs)
		}

		if err != nil {
			rt.Fatalf("create: %v\n%s", err, vk.JS(doc))
		}

		if len(proofs) > 0 {
			var l []any
			for _, p := range proofs {
				l = append(l, map[string]any(p))
			}

			doc["proof"] = l
		}

		out, err := cred.MarshalJSON()
		if err != nil {
			rt.Fatalf("serialize: %v", err)
		}

		if d := vk.Diff(meaning(doc), meaning(decodeObj(rt, out))); d != "" {
			rt.Fatalf("credential made from contents: %s\nwant %s\ngot  %s", d, vk.JS(doc), out)
		}

		back, err := verifiable.ParseCredential(out, parseOpts(opts...)...)
		if err != nil {
			rt.Fatalf("credential made from contents is refused: %v\n%s", err, out)
		}

		if d := vk.Diff(contentsView(contents), contentsView(back.Contents())); d != "" {
			rt.Fatalf("contents changed by serializing and parsing: %s\n%s", d, out)
		}

		if d := vk.Diff(refContents(doc), contentsView(cred.Contents())); d != "" {
			rt.Fatalf("Contents() of the created credential: %s", d)
		}

		if vk.JS([]any{contentsView(contents), custom, proofs}) != before {
			rt.Fatalf("creating changed its arguments: %s -> %s", before, vk.JS([]any{contentsView(contents), custom, proofs}))
		}

		s := shape(doc)
		for _, f := range s {
			c.Class("%s", f)
		}

		c.Class("data model %d", v)

		if len(s) > 2 {
			c.NonTrivial(out)
			c.Sample(out)
		}
	})
}

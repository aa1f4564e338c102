package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// ---- the data model's rules, written down independently of the library's schema texts

type tri int

const (
	no tri = iota
	maybe
	yes
)

func triAll(ts ...tri) tri {
	out := yes
	for _, t := range ts {
		if t < out {
			out = t
		}
	}

	return out
}

func triAny(ts ...tri) tri {
	out := no
	for _, t := range ts {
		if t > out {
			out = t
		}
	}

	return out
}

func is(b bool) tri {
	if b {
		return yes
	}

	return no
}

func isURI(v any) tri {
	s, ok := v.(string)
	if !ok {
		return no
	}

	i := strings.Index(s, ":")
	if i <= 0 || strings.ContainsAny(s[:i], "/?# ") {
		return no
	}

	if u, err := url.Parse(s); err != nil || !u.IsAbs() || strings.ContainsAny(s, "\\ <>\"{}|^`") {
		return maybe
	}

	return yes
}

func isStr(v any) tri {
	_, ok := v.(string)

	return is(ok)
}

// isTime: RFC 3339 texts are times, words and other kinds are not.
func isTime(v any) tri {
	s, ok := v.(string)
	if !ok {
		return no
	}

	if _, err := time.Parse(time.RFC3339Nano, s); err == nil {
		return yes
	}

	if len(s) > 10 && s[4] == '-' && strings.ContainsAny(s, "T") {
		return maybe // near to a time: an odd zone, and so on
	}

	return no
}

// each: an array whose every element passes.
func each(v any, minLen int, f func(any) tri) tri {
	l, ok := v.([]any)
	if !ok || len(l) < minLen {
		return no
	}

	out := yes
	for _, x := range l {
		out = triAll(out, f(x))
	}

	return out
}

func object(v any, required []string, rules map[string]func(any) tri) tri {
	m, ok := v.(map[string]any)
	if !ok {
		return no
	}

	for _, r := range required {
		if _, ok := m[r]; !ok {
			return no
		}
	}

	out := yes

	for k, f := range rules {
		if x, ok := m[k]; ok {
			out = triAll(out, f(x))
		}
	}

	return out
}

// typeName: the library keeps a single name per typed entry; several are allowed by the
// data model, so either answer is possible.
func typeName(v any) tri {
	if l, ok := v.([]any); ok {
		out := tri(maybe)

		for _, x := range l {
			if _, ok := x.(string); !ok {
				return no
			}
		}

		return out
	}

	return isStr(v)
}

// typeNameV2: the data model's published schema leaves the elements of a list open.
func typeNameV2(v any) tri {
	if l, ok := v.([]any); ok {
		return triAll(is(len(l) > 0), maybe)
	}

	return isStr(v)
}

func typedV1(v any) tri {
	if v == nil {
		return yes
	}

	return object(v, []string{"id", "type"}, map[string]func(any) tri{"id": isURI, "type": typeName})
}

func typedManyV1(v any) tri {
	if l, ok := v.([]any); ok {
		for _, x := range l {
			if x == nil {
				return maybe
			}
		}
	}

	return triAny(typedV1(v), each(v, 0, typedV1))
}

func typedV2(required ...string) func(v any) tri {
	return func(v any) tri {
		f := func(x any) tri {
			return object(x, required, map[string]func(any) tri{"id": isStr, "type": typeNameV2})
		}

		return triAny(f(v), each(v, 1, f))
	}
}

func vcType(v any) tri {
	if v == "VerifiableCredential" {
		return yes
	}

	if l, ok := v.([]any); ok {
		found := false

		for _, x := range l {
			if _, ok := x.(string); !ok {
				return no
			}

			found = found || x == "VerifiableCredential"
		}

		return is(found)
	}

	return no
}

func unique(l []any) bool {
	seen := map[string]bool{}

	for _, x := range l {
		k := vk.JS(x)
		if seen[k] {
			return false
		}

		seen[k] = true
	}

	return true
}

func contextV1(v any) tri {
	if v == verifiable.V1ContextURI {
		return yes
	}

	l, ok := v.([]any)
	if !ok || len(l) == 0 || l[0] != verifiable.V1ContextURI || !unique(l) {
		return no
	}

	out := yes
	inline := false

	for _, x := range l {
		switch x.(type) {
		case string:
			if inline {
				out = maybe
			}
		case map[string]any:
			inline = true
		default:
			return no
		}
	}

	return out
}

func contextV2(v any) tri {
	l, ok := v.([]any)
	if !ok || len(l) == 0 || l[0] != verifiable.V2ContextURI {
		return no
	}

	for _, x := range l[1:] {
		switch x.(type) {
		case string:
		default:
			return maybe
		}
	}

	return yes
}

func subjectIDMaybe(v any) tri {
	if m, ok := v.(map[string]any); ok {
		if id, ok := m["id"]; ok {
			if id == nil {
				return maybe
			}

			return isStr(id)
		}

		return yes
	}

	return no
}

func subjectV1(v any) tri {
	if _, ok := v.(string); ok {
		return yes
	}

	l, ok := v.([]any)
	if ok && len(l) == 0 {
		return maybe
	}

	return triAny(subjectIDMaybe(v), each(v, 0, subjectIDMaybe))
}

func subjectV2(v any) tri {
	f := func(x any) tri {
		m, ok := x.(map[string]any)

		return triAll(is(ok && len(m) > 0), subjectIDMaybe(x))
	}

	return triAny(f(v), each(v, 1, f))
}

func issuerIn(id func(any) tri) func(any) tri {
	return func(v any) tri {
		if v == "" {
			return no
		}

		if m, ok := v.(map[string]any); ok && m["id"] == "" {
			return maybe
		}

		return triAny(id(v), object(v, []string{"id"}, map[string]func(any) tri{"id": id}))
	}
}

func proofV1(v any) tri {
	f := func(x any) tri { return object(x, []string{"type"}, map[string]func(any) tri{"type": isStr}) }
	if v == nil {
		return yes
	}

	return triAny(f(v), each(v, 0, f))
}

func nullMaybe(f func(any) tri) func(any) tri {
	return func(v any) tri {
		if v == nil {
			return yes
		}

		return f(v)
	}
}

var modelRules = map[int]map[string]func(any) tri{ //nolint:gochecknoglobals
	1: {
		"@context": contextV1, "id": isStr, "type": vcType, "credentialSubject": subjectV1, "issuer": issuerIn(isURI),
		"issuanceDate": isTime, "expirationDate": nullMaybe(isTime), "credentialStatus": typedV1,
		"credentialSchema": typedManyV1, "evidence": typedManyV1, "refreshService": typedV1,
	},
	2: {
		"@context": contextV2, "id": isStr, "type": vcType, "credentialSubject": subjectV2, "issuer": issuerIn(isStr),
		"validFrom": isTime, "validUntil": isTime, "credentialStatus": typedV2("id", "type"),
		"credentialSchema": typedV2("id", "type"), "evidence": typedV2("type"), "refreshService": typedV2("id", "type"),
		"termsOfUse": typedV2("type"),
	},
}

var modelRequired = map[int][]string{ //nolint:gochecknoglobals
	1: {"@context", "type", "credentialSubject", "issuer", "issuanceDate"},
	2: {"@context", "type", "credentialSubject", "issuer"},
}

// modelOf: the first context states the data model.
func modelOf(doc map[string]any) int {
	c := doc["@context"]
	if l, ok := c.([]any); ok && len(l) > 0 {
		c = l[0]
	}

	if c == verifiable.V2ContextURI {
		return 2
	}

	return 1
}

// modelOK decides a credential against its data model, leaving out the requirement of the members in skip.
func modelOK(doc map[string]any, skip map[string]bool) tri {
	out := yes
	v := modelOf(doc)

	for _, r := range modelRequired[v] {
		if _, ok := doc[r]; !ok && !skip[r] {
			return no
		}
	}

	for k, f := range modelRules[v] {
		if x, ok := doc[k]; ok {
			out = triAll(out, f(x))
		}
	}

	return out
}

// illValue is a value that may or may not suit a member.
func illValue(rt *rapid.T, v int) any {
	u := "https://a.example/" + vk.Word().Draw(rt, "w")
	obj := func() any {
		o := map[string]any{}
		if vk.Coin(rt, "oid", 2) {
			o["id"] = vk.Pick[any](rt, "oidv", u, "word", 7.0, nil, "did:ex:abc")
		}

		if vk.Coin(rt, "otype", 2) {
			o["type"] = vk.Pick[any](rt, "otypev", "T", []any{"T", "U"}, 7.0, nil, []any{"T", 1.0}, map[string]any{})
		}

		if vk.Coin(rt, "ofield", 3) {
			o["x"] = "y"
		}

		return o
	}

	switch rapid.IntRange(0, 13).Draw(rt, "illkind") {
	case 0:
		return nil
	case 1:
		return vk.Pick[any](rt, "scalar", "", true, false, 0.0, 12.0, -1.5)
	case 2:
		return vk.Word().Draw(rt, "illword")
	case 3:
		return u
	case 4, 5, 6:
		return obj()
	case 7:
		return []any{}
	case 8:
		return []any{obj(), obj()}
	case 9:
		return []any{vk.Pick[any](rt, "elem", "word", 5.0, nil, u, []any{}, true)}
	case 10:
		return vk.Pick[any](rt, "date", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678+02:00", "2020-01-02", "12:00:00",
			"2020-13-02T03:04:05Z", "yesterday", "2020-01-02T03:04:05")
	case 11:
		return vk.Pick[any](rt, "types", "VerifiableCredential", []any{"VerifiableCredential"}, []any{"T"}, "T",
			[]any{"VerifiableCredential", 5.0}, []any{"T", "VerifiableCredential"}, "xVerifiableCredential", []any{"VerifiableCredentials"})
	case 12:
		c := credCtx[v]

		return vk.Pick[any](rt, "contexts", c, []any{c}, []any{vk.ExtContextURL}, []any{vk.ExtContextURL, c}, []any{c, c},
			[]any{c, 5.0}, []any{c, vk.ExtContextURL}, credCtx[3-v], []any{credCtx[3-v]})
	default:
		return vk.Pick[any](rt, "ids", "did:ex:abc", "urn:x:1", "not a uri", "//host/path", "x", map[string]any{"id": u, "name": "N"})
	}
}

func modelMembers(v int) []string {
	var out []string
	for k := range modelRules[v] {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

// allowAll lists the contexts and types of the document, whatever they are, for extended validation.
func allowAll(doc map[string]any) (ctx, types []string) {
	add := func(v any) (out []string) {
		switch t := v.(type) {
		case string:
			out = append(out, t)
		case []any:
			for _, x := range t {
				if s, ok := x.(string); ok {
					out = append(out, s)
				}
			}
		}

		return
	}

	return add(doc["@context"]), add(doc["type"])
}

// TestC26_DataModel changes members of a credential at random: the parser accepts exactly
// what the rules of the data model allow.
func TestC26_DataModel(t *testing.T) {
	vk.Check(t, "a member was replaced or removed", 5000, 60000, func(rt *rapid.T, c *vk.Case) {
		v := rapid.IntRange(1, 2).Draw(rt, "version")
		doc, _ := credGen{Version: v, LD: true, NoSchema: true, Valid: true}.draw(rt)
		doc = vk.CloneMap(doc)

		if modelOK(doc, nil) != yes {
			rt.Fatalf("VERIF-HARNESS-ERROR the generated credential breaks the rules: %s", vk.JS(doc))
		}

		skip := map[string]bool{}

		changed := 0

		for i := rapid.IntRange(0, 2).Draw(rt, "changes"); i > 0; i-- {
			m := rapid.SampledFrom(modelMembers(v)).Draw(rt, "member")

			if vk.Coin(rt, "remove", 4) {
				if _, ok := doc[m]; !ok {
					continue
				}

				delete(doc, m)
				c.Class("removed " + m)
			} else {
				doc[m] = illValue(rt, v)
				c.Class("replaced " + m)
			}

			changed++
		}

		var opts []verifiable.CredentialOpt

		mode := rapid.SampledFrom([]string{"combined", "combined", "extended", "custom default"}).Draw(rt, "mode")
		positive := true

		switch mode {
		case "combined":
			// JSON-LD processing may object to what the data model allows
			positive = changed == 0
		case "extended":
			ctx, types := allowAll(doc)
			opts = append(opts, verifiable.WithBaseContextExtendedValidation(credCtx[v], ctx, types))
		case "custom default":
			ctx, types := allowAll(doc)

			var so []verifiable.SchemaOpt

			for _, r := range modelRequired[v][1:] {
				if vk.Coin(rt, "disable "+r, 3) {
					skip[r] = true

					so = append(so, verifiable.WithDisableRequiredField(r))
				}
			}

			s := verifiable.JSONSchemaLoaderV1(so...)
			if v == 2 {
				s = verifiable.JSONSchemaLoaderV2(so...)
			}

			opts = append(opts, verifiable.WithBaseContextExtendedValidation(credCtx[v], ctx, types))

			if rapid.Bool().Draw(rt, "loader") {
				opts = append(opts, verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return s }))
			} else {
				opts = append(opts, verifiable.WithSchema(s))
			}

			// the member the parser itself cannot do without
			if _, ok := doc["type"]; !ok {
				positive = false
			}
		}

		want := modelOK(doc, skip)

		if modelOf(doc) != v {
			// now of the other data model, with members the parser reads whichever the model is
			positive = false

			if mode == "custom default" {
				want = maybe
			}
		}

		// credentialSubject's and the others' presence as null is parsed as absent
		opts = parseOpts(append(opts, verifiable.WithDisabledProofCheck())...)
		data := mustJSON(rt, doc)

		cred, err := verifiable.ParseCredential(data, opts...)
		got := err == nil

		if changed > 0 {
			c.NonTrivial(doc)
		}

		c.Class(fmt.Sprintf("%s: expected %v", mode, map[tri]string{no: "refused", maybe: "either", yes: "accepted"}[want]))
		c.Sample(map[string]any{"mode": mode, "doc": doc, "want": want, "err": fmt.Sprint(err)})

		switch {
		case want == no && got:
			rt.Fatalf("accepted a credential its data model forbids (%s): %s", mode, data)
		case want == yes && !got && positive:
			rt.Fatalf("refused a credential its data model allows (%s): %v\n%s", mode, err, data)
		}

		// the same rules hold for a parsed credential that is validated later
		late, err := verifiable.ParseCredential(data, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
		if err == nil {
			err = late.ValidateCredential(opts...)
			if (err == nil) != got {
				rt.Fatalf("validated later: %v; parsed with validation: %v\n%s", err == nil, got, data)
			}
		} else if got {
			rt.Fatalf("parses only with validation: %v\n%s", err, data)
		}

		// and for a credential in a token
		if rapid.Bool().Draw(rt, "token") {
			claims := map[string]any{"vc": doc}
			if v == 2 {
				claims = doc
			}

			tok := vk.B64(mustJSON(rt, map[string]any{"alg": "none", "typ": "JWT"})) + "." + vk.B64(mustJSON(rt, claims)) + "."
			_, err = verifiable.ParseCredential([]byte(tok), opts...)

			if want == no && err == nil {
				rt.Fatalf("accepted in a token: a credential its data model forbids (%s): %s", mode, data)
			}

			if want == yes && positive && err != nil && cred != nil {
				rt.Fatalf("refused in a token: a credential its data model allows (%s): %v\n%s", mode, err, data)
			}
		}
	})
}

// ---- referenced schemas

type schemaPage struct {
	fault string
	body  []byte
	rules map[string]any // nil: not a schema
}

type schemaWeb struct {
	mu    sync.Mutex
	pages map[string]*schemaPage
	gets  map[string]int
}

func (w *schemaWeb) RoundTrip(r *http.Request) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()

	u := r.URL.String()
	w.gets[u]++

	p := w.pages[u]
	if p == nil {
		return &http.Response{StatusCode: 404, Body: io.NopCloser(strings.NewReader("{}")), Request: r}, nil
	}

	resp := &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(string(p.body))), Request: r}

	switch p.fault {
	case "error":
		return nil, errors.New("unreachable")
	case "status":
		resp.StatusCode = 503
	case "created":
		resp.StatusCode = 204
	case "cut":
		resp.Body = io.NopCloser(io.MultiReader(strings.NewReader(string(p.body[:len(p.body)/2])), badReader{}))
	}

	return resp, nil
}

// mapCache is a SchemaCache of the caller's own.
type mapCache map[string][]byte

func (m mapCache) Put(k string, v []byte)      { m[k] = append([]byte{}, v...) }
func (m mapCache) Get(k string) ([]byte, bool) { b, ok := m[k]; return b, ok }

// drawSchema generates rules about the subject of the credential.
func drawSchema(rt *rapid.T, sub map[string]any) map[string]any {
	props := map[string]any{}

	var req []any

	for i := vk.Size(rt, "rules", 0, 3); i > 0; i-- {
		name := fmt.Sprintf("t%d", rapid.IntRange(0, 4).Draw(rt, "rulefield"))
		if ks := vk.SortedKeys(sub); len(ks) > 0 && vk.Coin(rt, "known", 2) {
			name = rapid.SampledFrom(ks).Draw(rt, "knownfield")
		}

		switch rapid.IntRange(0, 4).Draw(rt, "rule") {
		case 0:
			if !strings.Contains(vk.JS(req), `"`+name+`"`) {
				req = append(req, name)
			}
		case 1:
			props[name] = map[string]any{"type": vk.Pick(rt, "kind", "string", "number", "boolean", "object", "array")}
		case 2:
			k := vk.Pick[any](rt, "const", "x", 3.0, true)
			if x, ok := sub[name]; ok && vk.Coin(rt, "same", 2) {
				k = x
			}

			props[name] = map[string]any{"const": k}
		case 3:
			props[name] = map[string]any{"minimum": float64(rapid.IntRange(-50000, 50000).Draw(rt, "min"))}
		case 4:
			props[name] = map[string]any{"maxLength": float64(rapid.IntRange(0, 8).Draw(rt, "max"))}
		}
	}

	s := map[string]any{"type": "object", "properties": props}
	if len(req) > 0 {
		s["required"] = req
	}

	if vk.Coin(rt, "closed", 8) {
		s["additionalProperties"] = false
	}

	out := map[string]any{"type": "object", "required": []any{"credentialSubject"}, "properties": map[string]any{"credentialSubject": s}}

	if vk.Coin(rt, "top", 4) {
		out["required"] = []any{"credentialSubject", vk.Pick(rt, "topmember", "id", "evidence", "credentialStatus")}
	}

	return out
}

// follows evaluates the schemas drawSchema makes.
func follows(s map[string]any, v any) bool {
	if k, ok := s["const"]; ok && !vk.Same(k, v) {
		return false
	}

	if m, ok := s["minimum"]; ok {
		if n, isNum := v.(float64); isNum && n < m.(float64) {
			return false
		}
	}

	if m, ok := s["maxLength"]; ok {
		if t, isText := v.(string); isText && float64(len([]rune(t))) > m.(float64) {
			return false
		}
	}

	if k, ok := s["type"]; ok && k != jsonType(v) {
		return false
	}

	o, isObj := v.(map[string]any)
	if !isObj {
		return true
	}

	if req, ok := s["required"].([]any); ok {
		for _, r := range req {
			if _, ok := o[r.(string)]; !ok {
				return false
			}
		}
	}

	props, _ := s["properties"].(map[string]any)
	for k, x := range o {
		if p, ok := props[k].(map[string]any); ok {
			if !follows(p, x) {
				return false
			}
		} else if s["additionalProperties"] == false {
			return false
		}
	}

	return true
}

func drawSchemaPage(rt *rapid.T, sub map[string]any) *schemaPage {
	p := &schemaPage{rules: drawSchema(rt, sub)}
	p.body = mustJSON(rt, p.rules)

	if vk.Coin(rt, "big", 40) {
		n := vk.Pick(rt, "kilobytes", 4, 32, 64, 1024, 3000) << 10
		if len(p.rules) > 0 {
			p.body = []byte(`{"$comment":"` + strings.Repeat("x", n) + `",` + string(p.body[1:]))
		}
	}

	switch rapid.IntRange(0, 19).Draw(rt, "pagefault") {
	case 0:
		p.fault = "error"
	case 1:
		p.fault = "status"
	case 2:
		p.fault = "created"
	case 3:
		p.fault = "cut"
	case 4:
		p.body, p.rules = []byte(vk.Pick(rt, "malformed", "", "{", "no schema", `{"type":5}`, `{"properties":[]}`)), nil
	}

	return p
}

// schemaURLs look alike, but name different schemas.
var schemaURLs = []string{
	"https://schemas.example/1", "https://schemas.example/1?v=2", "https://schemas.example/1?v=3", "https://schemas.example/1/",
	"https://schemas.example/ONE", "https://schemas.example/one", "https://schemas2.example/1", "http://schemas.example/1",
}

// TestC26_ReferencedSchemas serves schemas that change over time and can fail to load, with and
// without a cache: a credential is accepted exactly when it satisfies its data model and every
// supported schema it references.
func TestC26_ReferencedSchemas(t *testing.T) {
	vk.Check(t, "a supported schema was referenced", 2500, 30000, func(rt *rapid.T, c *vk.Case) {
		w := &schemaWeb{pages: map[string]*schemaPage{}, gets: map[string]int{}}
		client := &http.Client{Transport: w}

		b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(client)
		cacheKind := rapid.SampledFrom([]string{"none", "map", "expirable"}).Draw(rt, "cache")

		switch cacheKind {
		case "map":
			b = b.SetCache(mapCache{})
		case "expirable":
			b = b.SetCache(verifiable.NewExpirableSchemaCache(rapid.SampledFrom([]int{1, 1 << 20}).Draw(rt, "size"), time.Hour))
		}

		loader := b.Build()
		cached := map[string]*schemaPage{}

		urls := rapid.Permutation(schemaURLs).Draw(rt, "urls")[:4]

		for step := rapid.IntRange(1, 4).Draw(rt, "steps"); step > 0; step-- {
			doc, v := credGen{LD: true, SingleSub: true, NoSchema: true, Valid: true}.draw(rt)
			doc = vk.CloneMap(doc)
			sub := doc["credentialSubject"].(map[string]any)

			var refs []any

			for i := vk.Size(rt, "refs", 0, 3); i > 0; i-- {
				refs = append(refs, map[string]any{
					"id":   rapid.SampledFrom(urls).Draw(rt, "which"),
					"type": vk.Pick(rt, "reftype", "JsonSchema", "JsonSchemaValidator2018", "JsonSchema", "JsonSchemaCredential", "T0"),
				})
			}

			switch {
			case len(refs) == 1 && rapid.Bool().Draw(rt, "single"):
				doc["credentialSchema"] = refs[0]
			case len(refs) > 0:
				doc["credentialSchema"] = refs
			}

			for _, u := range urls {
				if w.pages[u] == nil || vk.Coin(rt, "republish", 4) {
					w.pages[u] = drawSchemaPage(rt, sub)
				}
			}

			ill := false

			if vk.Coin(rt, "illformed", 6) {
				m := rapid.SampledFrom(modelMembers(v)).Draw(rt, "member")
				if m != "credentialSchema" && m != "credentialSubject" {
					doc[m] = illValue(rt, v)
					ill = true
				}
			}

			var opts []verifiable.CredentialOpt

			off := ""

			switch rapid.IntRange(0, 9).Draw(rt, "off") {
			case 0:
				off = "no custom"

				opts = append(opts, verifiable.WithNoCustomSchemaCheck())
			case 1:
				off = "own schema"
			}

			own := drawSchema(rt, sub)
			if off == "own schema" {
				opts = append(opts, verifiable.WithSchema(string(mustJSON(rt, own))))
			}

			ctx, types := allowAll(doc)
			opts = parseOpts(append(opts, verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(loader),
				verifiable.WithBaseContextExtendedValidation(credCtx[v], ctx, types))...)

			want := modelOK(doc, nil)
			if off == "own schema" {
				// the caller's schema takes the place of the others; what the parser itself refuses stays refused
				if !follows(own, doc) {
					want = no
				} else if want == no {
					want = maybe
				}
			}

			if modelOf(doc) != v && want == yes {
				want = maybe
			}

			supported := 0

			if off == "" && want != no {
				for _, r := range refs {
					r := r.(map[string]any)
					u := r["id"].(string)

					if !strings.HasPrefix(r["type"].(string), "JsonSchema") || r["type"] == "JsonSchemaCredential" {
						continue
					}

					supported++

					p := w.pages[u]
					fresh := is(p.fault == "" && p.rules != nil && follows(p.rules, doc))
					if old := cached[u]; old != nil {
						was := is(old.rules != nil && follows(old.rules, doc))

						switch {
						case cacheKind == "map":
							fresh = was
						case was != fresh:
							fresh = maybe
						}
					}

					want = triAll(want, fresh)
				}

				// what has been fetched by now: loading stops at the first failure
				for _, r := range refs {
					r := r.(map[string]any)
					u := r["id"].(string)

					if (r["type"] != "JsonSchema" && r["type"] != "JsonSchemaValidator2018") || cacheKind == "none" {
						continue
					}

					if p := w.pages[u]; cached[u] == nil {
						if p.fault != "" {
							break
						}

						cached[u] = p
					}
				}
			} else if off == "" {
				// the ill-formed credential may have been refused before anything was loaded
				// or after: what the cache holds is unknown, so the history ends
				if cacheKind != "none" {
					step = 1
				}
			}

			data := mustJSON(rt, doc)
			_, err := verifiable.ParseCredential(data, opts...)

			if supported > 0 || (off == "own schema") {
				c.NonTrivial(doc, w.String())
			}

			c.Class(fmt.Sprintf("cache %s, %d supported, ill %v, off %q: want %d", cacheKind, min(supported, 2), ill, off, want))
			c.Sample(map[string]any{"doc": doc, "cache": cacheKind, "want": want, "err": fmt.Sprint(err)})

			switch {
			case want == no && err == nil:
				rt.Fatalf("accepted a credential that breaks a schema (cache %s): %s\nserved %s", cacheKind, data, w)
			case want == yes && err != nil:
				rt.Fatalf("refused a credential that satisfies its schemas (cache %s): %v\n%s\nserved %s", cacheKind, err, data, w)
			}
		}
	})
}

func (w *schemaWeb) String() string {
	out := map[string]any{}

	for u, p := range w.pages {
		out[u] = p.fault + " " + string(p.body)
	}

	b, _ := json.Marshal(out) //nolint:errchkjson

	return string(b)
}

// TestC26_CacheExpiry puts and gets entries with short life times: an entry is served with the
// last value put and never after its time.
func TestC26_CacheExpiry(t *testing.T) {
	vk.Check(t, "an entry was read after its time", 60, 600, func(rt *rapid.T, c *vk.Case) {
		type entry struct {
			val  string
			from time.Time // latest possible time it was put
			low  time.Time
		}

		const n = 8

		exp := make([]time.Duration, n)
		for i := range exp {
			exp[i] = time.Duration(rapid.SampledFrom([]int{0, 1, 5, 20, 35, 60_000, 3600_000}).Draw(rt, "exp")) * time.Millisecond
		}

		script := rapid.SliceOfN(rapid.IntRange(0, 4), 4, 12).Draw(rt, "script")
		keys := []string{"", "a", "https://schemas.example/1", "b"}

		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			late bool
			fail string
		)

		for i := 0; i < n; i++ {
			wg.Add(1)

			go func(i int) {
				defer wg.Done()

				cache := verifiable.NewExpirableSchemaCache(1<<16, exp[i])
				model := map[string]entry{}

				for j, op := range script {
					k := keys[(i+j*3)%len(keys)]

					switch op {
					case 0, 1:
						v := fmt.Sprintf("v%d-%d", i, j)
						if j%3 == 2 {
							v = ""
						}

						low := time.Now()
						cache.Put(k, []byte(v))
						model[k] = entry{val: v, from: time.Now(), low: low}
					case 2:
						time.Sleep(time.Duration(7+i) * time.Millisecond)
					default:
						before := time.Now()
						got, ok := cache.Get(k)
						after := time.Now()
						e, known := model[k]

						mu.Lock()

						switch {
						case ok && !known:
							fail = fmt.Sprintf("served %q, never put", k)
						case ok && string(got) != e.val:
							fail = fmt.Sprintf("served %q for %q, put %q", got, k, e.val)
						case ok && before.After(e.from.Add(exp[i]+2*time.Millisecond)):
							fail = fmt.Sprintf("served %v after the put, configured %v", before.Sub(e.from), exp[i])
						case !ok && known && after.Before(e.low.Add(exp[i]-2*time.Millisecond)):
							fail = fmt.Sprintf("gone %v after the put, configured %v", after.Sub(e.low), exp[i])
						case known && before.After(e.from.Add(exp[i])):
							late = true
						}

						mu.Unlock()
					}
				}
			}(i)
		}

		wg.Wait()

		if fail != "" {
			rt.Fatalf("%s (life times %v, script %v)", fail, exp, script)
		}

		if late {
			c.NonTrivial(exp, script)
		}

		c.Class(fmt.Sprintf("script of %d", len(script)))
		c.Sample(map[string]any{"expirations": fmt.Sprint(exp), "script": script})
	})
}

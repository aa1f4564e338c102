package props

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/testsupport"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

var _ = testsupport.NewEd25519Verifier

// peCred is a credential the holder has.
type peCred struct {
	doc  map[string]any // what it says, everything disclosed
	form string         // plain, ld, jwt, sdjwt, cwt
	mark string         // proof type or alg
	more []string       // types of further proofs
	cred *verifiable.Credential
	text any // what a presentation holds for it: a token or the JSON object
}

func (p *peCred) jwt() bool { return p.form == "jwt" || p.form == "sdjwt" }

type peGen struct {
	v2      bool
	forms   []string
	plainID bool // every credential has an id of its own
	several bool // credentials with several subjects or proofs
}

func drawPESubject(rt *rapid.T) map[string]any {
	sub := map[string]any{}

	if !vk.Coin(rt, "noID", 4) {
		sub["id"] = vk.Pick(rt, "sid", "did:ex:s0", "did:ex:s1", "did:ex:iss0")
	}

	if !vk.Coin(rt, "noName", 4) {
		sub["name"] = vk.Pick(rt, "name", "Alice", "Bob", "Carol-Ann", "")
	}

	if !vk.Coin(rt, "noAge", 3) {
		sub["age"] = vk.Pick(rt, "age", 0.0, 17, 18, 21.5, 65)
	}

	if !vk.Coin(rt, "noMember", 2) {
		sub["member"] = vk.Coin(rt, "member", 2)
	}

	if !vk.Coin(rt, "noTags", 2) {
		tags := []any{}
		for range vk.Size(rt, "tags", 1, 3) {
			tags = append(tags, vk.Pick(rt, "tag", "red", "green", "blue"))
		}

		sub["tags"] = tags
	}

	if !vk.Coin(rt, "noDegree", 2) {
		d := map[string]any{"type": vk.Pick(rt, "deg", "BSc", "MSc")}

		if !vk.Coin(rt, "noGPA", 3) {
			d["gpa"] = vk.Pick(rt, "gpa", 1.5, 3, 4)
		}

		if !vk.Coin(rt, "noSchool", 2) {
			d["school"] = map[string]any{"city": vk.Pick(rt, "city", "Rome", "Oslo"), "rank": vk.Pick(rt, "rank", 1.0, 2)}
		}

		sub["degree"] = d
	}

	if !vk.Coin(rt, "noItems", 2) {
		items := []any{}
		for range rapid.IntRange(1, 3).Draw(rt, "items") {
			items = append(items, map[string]any{"kind": vk.Pick(rt, "kind", "book", "pen"), "qty": vk.Pick(rt, "qty", 1.0, 2, 10)})
		}

		sub["items"] = items
	}

	if vk.Coin(rt, "given", 3) {
		sub["given-name"] = vk.Pick(rt, "given-name", "Al", "Bo")
	}

	return sub
}

func (g peGen) draw(rt *rapid.T, i int) *peCred {
	p := &peCred{form: rapid.SampledFrom(g.forms).Draw(rt, "form")}

	types := []any{"VerifiableCredential"}
	for _, t := range []string{"T0", "T1", "T2"} {
		if vk.Coin(rt, t, 2) {
			types = append(types, t)
		}
	}

	if g.several && vk.Coin(rt, "types turned", 4) {
		types = append(types[1:], types[0])
	}

	p.doc = map[string]any{
		"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL}, "type": types,
		"issuer":       vk.Pick[any](rt, "issuer", "did:ex:iss0", "did:ex:iss1", map[string]any{"id": "did:ex:iss0", "name": "Uni"}),
		"issuanceDate": vk.Pick(rt, "date", "2020-01-01T00:00:00Z", "2021-06-01T10:00:00Z"), "credentialSubject": drawPESubject(rt),
	}

	if len(p.doc["credentialSubject"].(map[string]any)) == 0 {
		p.doc["credentialSubject"].(map[string]any)["id"] = "did:ex:s0"
	}

	if p.form == "sdjwt" || p.form == "cwt" { // cannot be made otherwise
		sub := p.doc["credentialSubject"].(map[string]any)
		if _, ok := sub["id"]; !ok {
			sub["id"] = "did:ex:s1"
		}
	}

	if g.v2 {
		p.doc["@context"].([]any)[0] = verifiable.V2ContextURI
		p.doc["validFrom"] = p.doc["issuanceDate"]
		delete(p.doc, "issuanceDate")
	}

	if vk.Coin(rt, "expires", 3) {
		if g.v2 {
			p.doc["validUntil"] = "2099-01-01T00:00:00Z"
		} else {
			p.doc["expirationDate"] = "2099-01-01T00:00:00Z"
		}
	}

	if g.plainID || !vk.Coin(rt, "noID", 3) { // credentials that share an id are a known finding
		p.doc["id"] = fmt.Sprintf("urn:cred:%d", i)
	}

	if g.several && (p.form == "plain" || p.form == "ld") && vk.Coin(rt, "several subjects", 4) {
		list := []any{p.doc["credentialSubject"]}
		for range rapid.IntRange(1, 2).Draw(rt, "more subjects") {
			list = append(list, drawPESubject(rt))
		}

		for i, s := range list {
			if len(s.(map[string]any)) == 0 {
				s.(map[string]any)["id"] = fmt.Sprintf("did:ex:n%d", i)
			}
		}

		p.doc["credentialSubject"] = list
	}

	if g.several && p.form == "ld" && vk.Coin(rt, "several proofs", 4) {
		p.more = []string{vk.Pick(rt, "further proof", "Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020")}
	}

	p.secure(rt)

	return p
}

// secure makes the credential of its document in its form.
func (p *peCred) secure(rt *rapid.T) {
	iss := issuerOf(p.doc)

	var data []byte

	switch p.form {
	case "plain":
		data = vk.MustJSON(p.doc)
	case "ld":
		p.mark = vk.Pick(rt, "proofType", "Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020")
		d := vk.CloneMap(p.doc)

		var proofs []any
		for _, typ := range append([]string{p.mark}, p.more...) {
			proofs = append(proofs, map[string]any{
				"type": typ, "created": "2021-01-01T00:00:00Z", "proofPurpose": "assertionMethod",
				"verificationMethod": iss + "#k", "proofValue": "zAAAA",
			})
		}

		if d["proof"] = proofs; len(proofs) == 1 {
			d["proof"] = proofs[0]
		}

		data = vk.MustJSON(d)
		p.doc = d
	case "jwt":
		p.mark = vk.Pick(rt, "alg", "EdDSA", "ES256", "ES384")
		data = []byte(p.token(rt, p.doc))
	case "cwt":
		c := p.parse(rt, vk.MustJSON(p.doc))

		signed, err := c.CreateSignedCOSEVC(-8, vk.GetKey("EdDSA", "pe").Creator(), iss+"#k")
		if err != nil {
			rt.Fatalf("CWT credential: %v", err)
		}

		raw, err := signed.MarshalAsCWTLD()
		if err != nil {
			rt.Fatalf("CWT credential: %v", err)
		}

		data = raw
	case "sdjwt":
		p.mark = "EdDSA"

		c := p.parse(rt, vk.MustJSON(p.doc))
		opts := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithHash(rapid.SampledFrom(sdHashes).Draw(rt, "hash"))}
		v := vk.Pick(rt, "sdVersion", common.SDJWTVersionV2, common.SDJWTVersionV5)
		opts = append(opts, verifiable.MakeSDJWTWithVersion(v))

		if v == common.SDJWTVersionV5 {
			if vk.Coin(rt, "recursive", 2) {
				opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects(
					vk.Pick(rt, "rec", []string{"degree"}, []string{"degree", "school"}, []string{"degree", "degree.school"})))
			}

			if vk.Coin(rt, "always", 3) {
				opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects([]string{"degree"}))
			}
		}

		if vk.Coin(rt, "nonSD", 3) {
			opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"id", vk.Pick(rt, "open", "name", "age", "tags")}))
		} else {
			opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"id"}))
		}

		tok, err := c.MakeSDJWT(joseSigner(vk.GetKey("EdDSA", "pe"), iss+"#k", ""), iss+"#k", opts...)
		if err != nil {
			rt.Fatalf("SD-JWT credential: %v", err)
		}

		data = []byte(tok)
	}

	p.cred = p.parse(rt, data)

	switch p.form {
	case "jwt":
		p.text = string(data)
	case "sdjwt":
		p.text = string(data)
	default:
		p.text = p.doc
	}
}

func (p *peCred) parse(rt *rapid.T, data []byte) *verifiable.Credential {
	c, err := verifiable.ParseCredential(data, peCredOpts()...)
	if err != nil {
		rt.Fatalf("%s credential %s: %v", p.form, data, err)
	}

	return c
}

func peCredOpts() []verifiable.CredentialOpt {
	return parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
}

// token is a JWT credential of doc.
func (p *peCred) token(rt *rapid.T, doc map[string]any) string {
	iss := issuerOf(doc)
	claims := map[string]any{"iss": iss, "vc": doc}

	if id, ok := doc["id"]; ok {
		claims["jti"] = id
	}

	if s, ok := doc["credentialSubject"].(map[string]any)["id"]; ok {
		claims["sub"] = s
	}

	from, _ := doc["issuanceDate"].(string)
	if from == "" {
		from, _ = doc["validFrom"].(string)
	}

	if t, err := time.Parse(time.RFC3339, from); err == nil {
		claims["nbf"] = t.Unix()
	}

	until, _ := doc["expirationDate"].(string)
	if until == "" {
		until, _ = doc["validUntil"].(string)
	}

	if t, err := time.Parse(time.RFC3339, until); err == nil {
		claims["exp"] = t.Unix()
	}

	return vk.MakeJWS(map[string]any{"alg": p.mark, "typ": "JWT", "kid": iss + "#k"}, vk.MustJSON(claims),
		vk.GetKey(vk.Kind(p.mark), "pe"))
}

// peSeg is a step of a path: a member name, an index, or every element.
type peSeg struct {
	name string
	idx  int
	kind int // 0 member, 1 index, 2 every element
}

type pePath []peSeg

func parsePEPath(s string) pePath {
	var out pePath

	for _, part := range strings.Split(s, ".") {
		name, rest, _ := strings.Cut(part, "[")
		out = append(out, peSeg{name: name})

		switch rest = strings.TrimSuffix(rest, "]"); rest {
		case "":
		case "*":
			out = append(out, peSeg{kind: 2})
		default:
			n := 0
			_, _ = fmt.Sscan(rest, &n)
			out = append(out, peSeg{kind: 1, idx: n})
		}
	}

	return out
}

var pePaths = []string{
	"credentialSubject.name", "credentialSubject.age", "credentialSubject.member", "credentialSubject.tags",
	"credentialSubject.tags[0]", "credentialSubject.tags[1]", "credentialSubject.tags[*]", "credentialSubject.degree",
	"credentialSubject.degree.type", "credentialSubject.degree.gpa", "credentialSubject.degree.school",
	"credentialSubject.degree.school.city", "credentialSubject.degree.school.rank", "credentialSubject.items[*].kind", "credentialSubject.items[0].qty",
	"credentialSubject.items[1].kind", "credentialSubject.items", "credentialSubject.id", "credentialSubject.given-name",
	"issuer", "issuer.id", "issuer.name", "type", "type[1]", "type[*]", "id", "issuanceDate", "validFrom", "credentialSubject",
	"credentialSubject.missing", "missing", "expirationDate",
}

// render writes a path, in one of its spellings.
func (p pePath) render(rt *rapid.T, plain bool) string {
	var b strings.Builder

	b.WriteString("$")

	for _, s := range p {
		switch s.kind {
		case 0:
			style := 0
			if !plain {
				style = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "style")
			}

			if style == 0 && strings.Contains(s.name, "-") {
				style = 1
			}

			switch style {
			case 0:
				b.WriteString("." + s.name)
			case 1:
				b.WriteString("['" + s.name + "']")
			default:
				b.WriteString(`["` + s.name + `"]`)
			}
		case 1:
			fmt.Fprintf(&b, "[%d]", s.idx)
		default:
			b.WriteString("[*]")
		}
	}

	return b.String()
}

// eval is the reference for paths.
func (p pePath) eval(v any) []any {
	cur := []any{v}

	for _, s := range p {
		var next []any

		for _, c := range cur {
			switch x := c.(type) {
			case map[string]any:
				for _, k := range vk.SortedKeys(x) {
					if s.kind == 2 || s.kind == 0 && k == s.name {
						next = append(next, x[k])
					}
				}
			case []any:
				switch {
				case s.kind == 2:
					next = append(next, x...)
				case s.kind == 1 && s.idx < len(x):
					next = append(next, x[s.idx])
				}
			}
		}

		cur = next
	}

	return cur
}

// peFilter is a filter as JSON together with its reference.
type peFilter map[string]any

// holds is the reference for filters.
func (f peFilter) holds(v any) bool {
	for k, a := range f {
		if !holdsKeyword(k, a, v) {
			return false
		}
	}

	return true
}

func toNum(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	}

	return 0, false
}

func holdsKeyword(k string, a, v any) bool { //nolint:gocyclo
	n, isNum := toNum(v)
	s, isStr := v.(string)
	l, isList := v.([]any)

	switch k {
	case "type":
		switch a {
		case "string":
			return isStr
		case "number":
			return isNum
		case "integer":
			return isNum && n == math.Trunc(n)
		case "boolean":
			_, ok := v.(bool)

			return ok
		case "array":
			return isList
		case "object":
			_, ok := v.(map[string]any)

			return ok
		}

		return false
	case "pattern":
		return !isStr || regexp.MustCompile(a.(string)).MatchString(s)
	case "minLength":
		m, _ := toNum(a)

		return !isStr || float64(utf8.RuneCountInString(s)) >= m
	case "maxLength":
		m, _ := toNum(a)

		return !isStr || float64(utf8.RuneCountInString(s)) <= m
	case "minimum":
		m, _ := toNum(a)

		return !isNum || n >= m
	case "maximum":
		m, _ := toNum(a)

		return !isNum || n <= m
	case "exclusiveMinimum":
		m, _ := toNum(a)

		return !isNum || n > m
	case "exclusiveMaximum":
		m, _ := toNum(a)

		return !isNum || n < m
	case "const":
		return vk.Same(a, v)
	case "enum":
		for _, e := range a.([]any) {
			if vk.Same(e, v) {
				return true
			}
		}

		return false
	case "not":
		return !peFilter(a.(map[string]any)).holds(v)
	case "contains":
		if !isList {
			return true
		}

		for _, e := range l {
			if peFilter(a.(map[string]any)).holds(e) {
				return true
			}
		}

		return false
	case "allOf":
		for _, e := range a.([]any) {
			if !peFilter(e.(map[string]any)).holds(v) {
				return false
			}
		}

		return true
	}

	panic("keyword " + k)
}

func jsonType(v any) string {
	switch v.(type) {
	case string:
		return "string"
	case bool:
		return "boolean"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	default:
		return "number"
	}
}

// drawItem draws one level of filter for values like v.
func enumOf(a, b any) []any {
	if a == b {
		return []any{a}
	}

	return []any{a, b}
}

func drawFilterItem(rt *rapid.T, v any, needType bool) peFilter {
	f := peFilter{}
	typ := jsonType(v)

	if needType || vk.Coin(rt, "typed", 2) {
		f["type"] = typ

		if typ == "number" && vk.Coin(rt, "integer", 2) {
			f["type"] = "integer"
		}

		if vk.Coin(rt, "wrongType", 12) {
			f["type"] = vk.Pick(rt, "t", "string", "number", "boolean", "array", "object", "integer")
		}
	}

	switch x := v.(type) {
	case string:
		switch vk.Pick(rt, "kw", "none", "const", "enum", "pattern", "len", "not") {
		case "const":
			f["const"] = vk.Pick(rt, "const", x, x, "Bob", "MSc", "green")
		case "enum":
			f["enum"] = enumOf(vk.Pick(rt, "e0", "Alice", "red", "pen"), vk.Pick(rt, "e1", x, "Rome"))
		case "pattern":
			f["pattern"] = vk.Pick(rt, "pattern", "^[A-M]", "o", "^.{3,5}$", regexp.QuoteMeta(x), "^red$|^blue$", "^did:")
		case "len":
			f["minLength"] = rapid.IntRange(1, 6).Draw(rt, "minLength")
			if vk.Coin(rt, "maxLen", 2) {
				f["maxLength"] = f["minLength"].(int) + rapid.IntRange(0, 6).Draw(rt, "maxLength")
			}
		case "not":
			f["not"] = vk.Pick(rt, "not", map[string]any{"const": "Bob"}, map[string]any{"const": x}, map[string]any{"pattern": "^[A-C]"})
		}
	case []any:
		switch vk.Pick(rt, "kw", "none", "contains", "contains", "not") {
		case "contains":
			f["contains"] = vk.Pick(rt, "contains", map[string]any{"type": "string", "const": "red"},
				map[string]any{"const": "blue"}, map[string]any{"type": "string", "pattern": "^T1$"}, map[string]any{"type": "object"})
		case "not":
			f["not"] = map[string]any{"contains": map[string]any{"const": vk.Pick(rt, "notTag", "red", "T0", "book")}}
		}
	case map[string]any, bool, nil:
	default:
		n, _ := toNum(v)

		switch vk.Pick(rt, "kw", "none", "const", "enum", "min", "max", "range", "xmin", "xmax", "not") {
		case "const":
			f["const"] = vk.Pick(rt, "const", n, n, n+1)
		case "enum":
			f["enum"] = enumOf(vk.Pick(rt, "e0", 1.0, 17), vk.Pick(rt, "e1", n, 3.5))
		case "min":
			f["minimum"] = vk.Pick(rt, "m", n, n+1, n-1, 0, 18)
		case "max":
			f["maximum"] = vk.Pick(rt, "m", n, n+1, n-1, 0, 18)
		case "range":
			f["minimum"], f["maximum"] = n-1, vk.Pick(rt, "m", n, n-0.5, n+5)
		case "xmin":
			f["exclusiveMinimum"] = vk.Pick(rt, "m", n, n-1, n+1)
		case "xmax":
			f["exclusiveMaximum"] = vk.Pick(rt, "m", n, n-1, n+1)
		case "not":
			f["not"] = map[string]any{"minimum": vk.Pick(rt, "m", n, n+1)}
		}
	}

	return f
}

// peField is a field of a descriptor.
type peField struct {
	paths    []pePath
	text     []string
	vcRoot   []bool // the path starts at $.vc
	filter   peFilter
	optional bool
	pred     string
}

// drawField draws a field, mostly one the credentials have a value for.
func drawField(rt *rapid.T, creds []*peCred, v2pd bool) *peField {
	f := &peField{}

	for range rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "paths") {
		p := parsePEPath(rapid.SampledFrom(pePaths).Draw(rt, "path"))

		for try := 0; try < 3 && len(creds) > 0 && len(p.eval(creds[0].doc)) == 0; try++ {
			p = parsePEPath(rapid.SampledFrom(pePaths).Draw(rt, "path"))
		}

		f.paths = append(f.paths, p)
		text := p.render(rt, false)
		vc := vk.Coin(rt, "vcRoot", 8)

		if vc {
			text = "$" + vk.Pick(rt, "vcText", ".vc", "['vc']") + text[1:]
		}

		f.text = append(f.text, text)
		f.vcRoot = append(f.vcRoot, vc)
	}

	if vk.Coin(rt, "filtered", 2) {
		var v any = "Alice"

		for _, c := range creds {
			if got := f.paths[0].eval(c.doc); len(got) == 1 {
				v = got[0]
			} else if len(got) > 1 {
				v = got
			}
		}

		// dates of JWT credentials may be compared as numbers
		if text, ok := v.(string); ok && vk.Coin(rt, "date as number", 2) {
			if t, err := time.Parse(time.RFC3339, text); err == nil {
				v = float64(t.Unix())
			}
		}

		f.filter = drawFilterItem(rt, v, !v2pd)

		if vk.Coin(rt, "allOf", 4) {
			all := []any{}
			for range rapid.IntRange(1, 2).Draw(rt, "all") {
				all = append(all, map[string]any(drawFilterItem(rt, v, vk.Coin(rt, "allTyped", 2))))
			}

			// what stands beside allOf is ignored (a known finding), so it only repeats what allOf says
			f.filter = peFilter{"allOf": all}

			if !v2pd {
				typ := jsonType(v)
				f.filter["type"], all[0].(map[string]any)["type"] = typ, typ
			}
		}

		if len(f.filter) == 0 {
			f.filter["type"] = jsonType(v)
		}
	}

	f.optional = v2pd && vk.Coin(rt, "optional", 5)

	return f
}

func (f *peField) json() map[string]any {
	out := map[string]any{"path": f.text}

	if f.filter != nil {
		out["filter"] = map[string]any(f.filter)
	}

	if f.optional {
		out["optional"] = true
	}

	if f.pred != "" {
		out["predicate"] = f.pred
	}

	return out
}

// pathOf is the path that applies to a credential: a JWT credential may be addressed under its vc claim,
// and its issuer is the issuer's id.
func (f *peField) pathOf(i int, c *peCred) (pePath, bool) {
	if f.vcRoot[i] {
		if !c.jwt() {
			return nil, false
		}
	}

	p := f.paths[i]

	if c.jwt() && len(p) == 1 && strings.EqualFold(p[0].name, "issuer") {
		if _, ok := c.doc["issuer"].(map[string]any); ok && !strings.Contains(f.text[i], "'issuer'") &&
			!strings.Contains(f.text[i], `"issuer"`) {
			return append(pePath{p[0]}, peSeg{name: "id"}), true
		}
	}

	return p, true
}

// holds is the reference for a field.
func (f *peField) holds(c *peCred) bool {
	for i := range f.paths {
		p, ok := f.pathOf(i, c)

		var vals []any
		if ok {
			vals = p.eval(c.doc)
		}

		if len(vals) == 0 {
			if f.optional {
				return true
			}

			continue
		}

		var v any = vals
		if len(vals) == 1 {
			v = vals[0]
		}

		if f.filter == nil || f.filterHolds(c, v) {
			return true
		}
	}

	return false
}

// filterHolds: the dates of a JWT credential are numbers for filters over numbers.
func (f *peField) filterHolds(c *peCred, v any) bool {
	dated := false

	for _, t := range f.text {
		for _, n := range []string{".issuanceDate", ".expirationDate", ".validFrom", ".validUntil"} {
			dated = dated || strings.Contains(t, n)
		}
	}

	number := v

	if s, ok := v.(string); ok && dated && c.jwt() {
		if t, err := time.Parse(time.RFC3339, s); err == nil {
			number = float64(t.Unix())
		}
	}

	items := []any{map[string]any(f.filter)}
	if all, ok := f.filter["allOf"].([]any); ok {
		items = all
	}

	for _, e := range items {
		item := peFilter(e.(map[string]any))
		x := v

		switch item["type"] {
		case "number", "integer":
			x = number
		case nil:
			if item["minimum"] != nil || item["maximum"] != nil || item["exclusiveMinimum"] != nil || item["exclusiveMaximum"] != nil {
				x = number
			}
		}

		if !item.holds(x) {
			return false
		}
	}

	return true
}

// peFormat is a format restriction: claim format to accepted algs or proof types.
type peFormat map[string][]string

var peFormatOrder = []string{"ldp", "ldp_vc", "ldp_vp", "jwt", "jwt_vc", "jwt_vp"}

func drawFormat(rt *rapid.T) peFormat {
	f := peFormat{}

	for range rapid.IntRange(1, 2).Draw(rt, "formats") {
		k := vk.Pick(rt, "fmt", "ldp", "ldp_vc", "ldp_vp", "jwt", "jwt_vc", "jwt_vp", "ldp_vc", "jwt_vc")
		pool := []string{"EdDSA", "ES256", "ES384", "none"}

		if strings.HasPrefix(k, "ldp") {
			pool = []string{"Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "BbsBlsSignature2020"}
		}

		f[k] = sample(rt, "marks", pool, 3)
		if len(f[k]) == 0 {
			f[k] = pool[:1]
		}
	}

	return f
}

func (f peFormat) json() map[string]any {
	out := map[string]any{}

	for k, v := range f {
		if strings.HasPrefix(k, "ldp") {
			out[k] = map[string]any{"proof_type": v}
		} else {
			out[k] = map[string]any{"alg": v}
		}
	}

	return out
}

func (f peFormat) admits(k string, c *peCred) bool {
	ld := strings.HasPrefix(k, "ldp")
	if ld != (c.form == "ld") || !ld && !c.jwt() {
		return false
	}

	for _, m := range f[k] {
		if m == c.mark || contains(c.more, m) || !ld && strings.EqualFold(m, c.mark) {
			return true
		}
	}

	return false
}

// peDesc is an input descriptor.
type peDesc struct {
	id      string
	groups  []string
	schema  []map[string]any // uri, required
	format  peFormat
	cons    bool
	fields  []*peField
	issuer  string // subject_is_issuer
	limit   string // limit_disclosure
	purpose string
}

var peTypeIRI = map[string]string{
	"T0": "https://verif.example/voc#T0", "T1": "https://verif.example/voc#T1", "T2": "https://verif.example/voc#T2",
	"VerifiableCredential": "https://www.w3.org/2018/credentials#VerifiableCredential",
}

func (d *peDesc) json() map[string]any {
	out := map[string]any{"id": d.id}

	if len(d.groups) > 0 {
		out["group"] = d.groups
	}

	if d.schema != nil {
		out["schema"] = d.schema
	}

	if d.format != nil {
		out["format"] = d.format.json()
	}

	if d.cons {
		c := map[string]any{}

		if d.fields != nil {
			fs := []any{}
			for _, f := range d.fields {
				fs = append(fs, f.json())
			}

			c["fields"] = fs
		}

		if d.issuer != "" {
			c["subject_is_issuer"] = d.issuer
		}

		if d.limit != "" {
			c["limit_disclosure"] = d.limit
		}

		out["constraints"] = c
	}

	return out
}

func (d *peDesc) schemaOK(c *peCred) bool {
	if d.schema == nil {
		return true
	}

	have := map[string]bool{}

	for _, t := range c.doc["type"].([]any) {
		have[t.(string)] = true
		have[peTypeIRI[t.(string)]] = true
	}

	some := false

	for _, s := range d.schema {
		ok := have[s["uri"].(string)]
		if !ok && s["required"] == true {
			return false
		}

		some = some || ok
	}

	return some
}

func (d *peDesc) constraintsOK(c *peCred) bool {
	if !d.cons {
		return true
	}

	if d.issuer == "required" {
		own := false

		for _, s := range asList(c.doc["credentialSubject"]) {
			sub, _ := s.(map[string]any) //nolint:errcheck
			own = own || sub["id"] != nil && sub["id"] == issuerOf(c.doc)
		}

		if !own {
			return false
		}
	}

	for _, f := range d.fields {
		if !f.holds(c) {
			return false
		}
	}

	return true
}

// peDef is a presentation definition.
type peDef struct {
	descs  []*peDesc
	format peFormat
	reqs   []*peReq
	v2     bool // no schemas
}

// peReq is a submission requirement.
type peReq struct {
	rule            string
	count, min, max int
	from            string
	nested          []*peReq
}

func (r *peReq) json() map[string]any {
	out := map[string]any{"rule": r.rule}

	for k, v := range map[string]int{"count": r.count, "min": r.min, "max": r.max} {
		if v > 0 {
			out[k] = v
		}
	}

	if r.from != "" {
		out["from"] = r.from
	} else {
		n := []any{}
		for _, c := range r.nested {
			n = append(n, c.json())
		}

		out["from_nested"] = n
	}

	return out
}

// holds tells whether submitting exactly the descriptors in set meets the requirement.
func (r *peReq) holds(d *peDef, set map[string]bool) bool {
	n, total := 0, 0

	if r.from != "" {
		for _, desc := range d.descs {
			if contains(desc.groups, r.from) {
				total++

				if set[desc.id] {
					n++
				}
			}
		}
	} else {
		for _, c := range r.nested {
			total++

			if c.holds(d, set) {
				n++
			}
		}
	}

	if r.rule == "all" {
		return n == total
	}

	return (r.count == 0 || n == r.count) && n >= r.min && (r.max == 0 || n <= r.max)
}

func contains(list []string, s string) bool {
	for _, e := range list {
		if e == s {
			return true
		}
	}

	return false
}

// met tells whether submitting exactly the descriptors in set meets the definition.
func (d *peDef) met(set map[string]bool) bool {
	if len(d.reqs) == 0 {
		for _, desc := range d.descs {
			if !set[desc.id] {
				return false
			}
		}

		return true
	}

	for _, r := range d.reqs {
		if !r.holds(d, set) {
			return false
		}
	}

	return true
}

// selection is the reference for one descriptor: which of the credentials satisfy it. When the format offers several
// claim formats, the first in the library's order for which there is such a credential is the one used.
func (d *peDef) selection(desc *peDesc, creds []*peCred) []*peCred {
	format := d.format
	if desc.format != nil {
		format = desc.format
	}

	pick := func(k string) []*peCred {
		var out []*peCred

		for _, c := range creds {
			if (k == "" || format.admits(k, c)) && desc.schemaOK(c) && desc.constraintsOK(c) {
				out = append(out, c)
			}
		}

		return out
	}

	if format == nil {
		return pick("")
	}

	for _, k := range peFormatOrder {
		if out := pick(k); len(out) > 0 {
			return out
		}
	}

	return nil
}

// satisfiable tells whether some of the descriptors in sat that the requirements speak of, and at least one, can be
// submitted to meet the definition.
func (d *peDef) satisfiable(sat []string) bool {
	var groups []string
	for _, r := range d.reqs {
		groups = append(groups, r.groups()...)
	}

	var relevant []string

	for _, desc := range d.descs {
		if contains(sat, desc.id) && (len(d.reqs) == 0 || slices.ContainsFunc(desc.groups, func(g string) bool {
			return contains(groups, g)
		})) {
			relevant = append(relevant, desc.id)
		}
	}

	for m := 1; m < 1<<len(relevant); m++ {
		set := map[string]bool{}

		for i, id := range relevant {
			if m>>i&1 == 1 {
				set[id] = true
			}
		}

		if d.met(set) {
			return true
		}
	}

	return false
}

func (r *peReq) groups() []string {
	if r.from != "" {
		return []string{r.from}
	}

	var out []string
	for _, n := range r.nested {
		out = append(out, n.groups()...)
	}

	return out
}

type peDefGen struct {
	limits  bool
	noReqs  bool
	noForms bool
	maxDesc int
}

func drawReq(rt *rapid.T, depth int) *peReq {
	r := &peReq{rule: vk.Pick(rt, "rule", "all", "pick", "pick")}
	total := 3

	if depth > 0 && vk.Coin(rt, "nest", 3) {
		total = rapid.IntRange(1, 3).Draw(rt, "nested")
		for range total {
			r.nested = append(r.nested, drawReq(rt, depth-1))
		}
	} else {
		r.from = vk.Pick(rt, "from", "A", "B", "C")
	}

	if r.rule == "pick" {
		switch vk.Pick(rt, "pick", "count", "count", "min", "max", "range", "any") {
		case "count":
			r.count = rapid.IntRange(1, total).Draw(rt, "count")
		case "min":
			r.min = rapid.IntRange(1, total).Draw(rt, "min")
		case "max":
			r.max = rapid.IntRange(1, total).Draw(rt, "max")
		case "range":
			r.min = rapid.IntRange(1, total).Draw(rt, "min")
			r.max = rapid.IntRange(r.min, total).Draw(rt, "max")
		}
	}

	return r
}

func (g peDefGen) draw(rt *rapid.T, creds []*peCred) *peDef {
	d := &peDef{v2: vk.Coin(rt, "pdV2", 2)}

	if !g.noForms && vk.Coin(rt, "format", 5) {
		d.format = drawFormat(rt)
	}

	maxDesc := g.maxDesc
	if maxDesc == 0 {
		maxDesc = 4
	}

	n := vk.Size(rt, "descs", 1, maxDesc)
	for i := range n {
		desc := &peDesc{id: fmt.Sprintf("d%d", i)}
		if vk.Coin(rt, "oddID", 6) {
			desc.id = fmt.Sprintf("%c é-%d", 'z'-rune(i), i)
		}

		like := creds
		if len(creds) > 1 {
			j := rapid.IntRange(0, len(creds)-1).Draw(rt, "like")
			like = creds[j : j+1]
		}

		if !d.v2 {
			desc.schema = []map[string]any{}

			for range rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "schemas") {
				s := map[string]any{"uri": vk.Pick(rt, "uri", peTypeIRI["VerifiableCredential"], peTypeIRI["VerifiableCredential"],
					peTypeIRI["T0"], peTypeIRI["T1"], peTypeIRI["T2"], "T1", "https://verif.example/voc#T9")}

				if vk.Coin(rt, "required", 3) {
					s["required"] = true
				}

				desc.schema = append(desc.schema, s)
			}
		}

		if d.v2 && !g.noForms && vk.Coin(rt, "descFormat", 5) {
			desc.format = drawFormat(rt)
		}

		if !vk.Coin(rt, "noConstraints", 6) {
			desc.cons = true

			for range rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(rt, "fields") {
				desc.fields = append(desc.fields, drawField(rt, like, d.v2))
			}

			if vk.Coin(rt, "issuerIs", 8) {
				desc.issuer = vk.Pick(rt, "subject_is_issuer", "required", "preferred")
			}

			if !g.limits && vk.Coin(rt, "preferLimit", 8) {
				desc.limit = "preferred"
			}
		}

		d.descs = append(d.descs, desc)
	}

	if !g.noReqs && vk.Coin(rt, "requirements", 2) {
		for i, desc := range d.descs {
			desc.groups = sample(rt, "groups", []string{"A", "B", "C"}, 2)
			if i < 3 && !contains(desc.groups, string(rune('A'+i))) {
				desc.groups = append(desc.groups, string(rune('A'+i)))
			}
		}

		for range rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "reqs") {
			d.reqs = append(d.reqs, drawReq(rt, 2))
		}

		used := map[string]bool{}
		for _, desc := range d.descs {
			for _, gr := range desc.groups {
				used[gr] = true
			}
		}

		for _, r := range d.reqs {
			r.fix(used)
		}
	}

	return d
}

// fix keeps to groups that have descriptors.
func (r *peReq) fix(used map[string]bool) {
	if r.from != "" && !used[r.from] {
		r.from = "A"
	}

	for _, c := range r.nested {
		c.fix(used)
	}
}

func (d *peDef) json() map[string]any {
	out := map[string]any{"id": "definition-1"}

	descs := []any{}
	for _, desc := range d.descs {
		descs = append(descs, desc.json())
	}

	out["input_descriptors"] = descs

	if d.format != nil {
		out["format"] = d.format.json()
	}

	if len(d.reqs) > 0 {
		rs := []any{}
		for _, r := range d.reqs {
			rs = append(rs, r.json())
		}

		out["submission_requirements"] = rs
	}

	return out
}

func (d *peDef) definition(rt *rapid.T) *presexch.PresentationDefinition {
	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vk.MustJSON(d.json()), pd); err != nil {
		rt.Fatalf("definition %s: %v", vk.JS(d.json()), err)
	}

	return pd
}

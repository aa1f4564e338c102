package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// customMembers are the members of a credential document that contents have no place for.
func customMembers(doc map[string]any) map[string]any {
	return without(doc, "@context", "id", "type", "issuer", "issuanceDate", "expirationDate", "validFrom", "validUntil",
		"credentialSubject", "credentialStatus", "credentialSchema", "evidence", "termsOfUse", "refreshService", "relatedResource", "proof")
}

// strictRoutes are the ways to have a credential validated.
var strictRoutes = map[string]func(doc map[string]any, opts []verifiable.CredentialOpt) error{
	"parse": func(doc map[string]any, opts []verifiable.CredentialOpt) error {
		_, err := verifiable.ParseCredential(vk.MustJSON(doc), opts...)

		return err
	},
	"parse JSON": func(doc map[string]any, opts []verifiable.CredentialOpt) error {
		_, err := verifiable.ParseCredentialJSON(vk.CloneMap(doc), opts...)

		return err
	},
	"validate": func(doc map[string]any, opts []verifiable.CredentialOpt) error {
		c, err := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
		if err != nil {
			return err
		}

		return c.ValidateCredential(opts...)
	},
	"created": func(doc map[string]any, opts []verifiable.CredentialOpt) error {
		c, err := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
		if err != nil {
			return err
		}

		c, err = verifiable.CreateCredential(c.Contents(), customMembers(vk.CloneMap(doc)))
		if err != nil {
			return err
		}

		return c.ValidateCredential(opts...)
	},
	"validate JWT": func(doc map[string]any, opts []verifiable.CredentialOpt) error {
		tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT"}, vk.MustJSON(map[string]any{"vc": doc}), vk.GetKey(vk.EdDSA, "c27"))

		c, err := verifiable.ParseCredential([]byte(tok), parseOpts(verifiable.WithDisabledProofCheck())...)
		if err != nil {
			return err
		}

		return c.ValidateCredential(opts...)
	},
}

// undefinedName draws a member name that no context defines, or not for an object in that place.
func undefinedName(rt *rapid.T, root string) string {
	names := []string{"undef", "foo/bar", "t12", "T", "Issuer", "x" + vk.Word().Draw(rt, "undefined"), "credentialHash", "", "@unknown", "t0 "}

	if root == "" {
		names = append(names, "issuer", "issuanceDate", "evidence", "credentialStatus", "verifiableCredential")
	}

	if root == "presentation" {
		names = append(names, "issuer", "credentialSubject", "issuanceDate")
	}

	return rapid.SampledFrom(names).Draw(rt, "name")
}

// insertUndefined puts an undefined member somewhere.
func insertUndefined(rt *rapid.T, doc map[string]any, rootKind func(path []any, o map[string]any) string) (where string) {
	var paths [][]any

	walkObjects(doc, func(p []any) { paths = append(paths, p) })

	p := rapid.SampledFrom(paths).Draw(rt, "place")
	o := objectAt(doc, p)
	name := undefinedName(rt, rootKind(p, o))

	if _, has := o[name]; has {
		name = "undef"
	}

	switch vk.Pick(rt, "undefined value", 0, 0, 1, 2) {
	case 0:
		o[name] = vk.Pick[any](rt, "scalar", "v", 1.0, true, "")
	case 1:
		o[name] = map[string]any{"t0": "v"}
	default:
		o[name] = []any{"a", map[string]any{"t1": "b"}}
	}

	return fmt.Sprint(append(p, name))
}

func TestC27_Strict(t *testing.T) {
	routes := vk.SortedKeys(map[string]any{"parse": 1, "parse JSON": 1, "validate": 1, "created": 1, "validate JWT": 1})

	vk.Check(t, "a member or type is undefined", 3000, 60000, func(rt *rapid.T, c *vk.Case) {
		doc, v := credGen{LD: true, Valid: true}.draw(rt)
		doc = vk.CloneMap(doc)

		opts := parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithNoCustomSchemaCheck())

		jsonldOnly := vk.Coin(rt, "JSON-LD only", 3)
		if jsonldOnly {
			opts = append(opts, verifiable.WithJSONLDValidation())
		}

		if vk.Coin(rt, "details", 4) {
			opts = append(opts, verifiable.WithJSONLDIncludeDetailedStructureDiffOnError())
		}

		strict := !vk.Coin(rt, "lenient", 8)
		if strict {
			opts = append(opts, verifiable.WithStrictValidation())
		}

		// contexts given from outside define members as well
		external := vk.Coin(rt, "external context", 5) && len(asList(doc["@context"])) > 1
		if external {
			doc["@context"] = asList(doc["@context"])[:1]
			opts = append(opts, verifiable.WithExternalJSONLDContext(vk.ExtContextURL))
		}

		route := rapid.SampledFrom(routes).Draw(rt, "route")

		types := vk.Coin(rt, "types check", 3)
		if types {
			opts = append(opts, verifiable.WithEnabledJSONLDTypesCheck())
		}

		bad := vk.Pick(rt, "undefined", "", "member", "member", "member", "type")
		where := ""

		switch bad {
		case "member":
			where = insertUndefined(rt, doc, func(p []any, o map[string]any) string {
				if len(p) == 0 {
					return "credential"
				}

				return ""
			})
		case "type":
			list := asList(doc["type"])
			at := rapid.IntRange(1, len(list)).Draw(rt, "type at")
			where = vk.Pick(rt, "undefined type", "Foo", "T9", "x"+vk.Word().Draw(rt, "type"), "t 0")
			doc["type"] = append(append(append([]any{}, list[:at]...), where), list[at:]...)
		}

		before := vk.JS(doc)
		err := strictRoutes[route](doc, opts)

		if vk.JS(doc) != before {
			rt.Fatalf("validation changed the document: %s -> %s", before, vk.JS(doc))
		}

		c.Class("v%d %s strict=%v types=%v jsonld=%v external=%v bad=%s accepted=%v", v, route, strict, types, jsonldOnly, external, bad, err == nil)
		c.Sample(map[string]any{"doc": doc, "route": route, "where": where, "err": fmt.Sprint(err)})

		if bad != "" && (strict || bad == "type") {
			c.NonTrivial(doc, route)
		}

		switch {
		case bad == "" && err != nil:
			rt.Fatalf("refused (%s, strict %v, types %v) although all is defined: %v\n%s", route, strict, types, err, before)
		case bad == "member" && strict && err == nil:
			rt.Fatalf("accepted (%s) with the undefined member %s\n%s", route, where, before)
		case bad == "type" && types && err == nil:
			rt.Fatalf("accepted (%s) with the undefined type %q\n%s", route, where, before)
		}
	})
}

func TestC27_Presentation(t *testing.T) {
	vk.Check(t, "a member is undefined", 2000, 40000, func(rt *rapid.T, c *vk.Case) {
		v := rapid.IntRange(1, 2).Draw(rt, "version")
		vp := map[string]any{"@context": []any{credCtx[v], vk.ExtContextURL}, "type": []any{"VerifiablePresentation"}}

		if rapid.Bool().Draw(rt, "id") {
			vp["id"] = vk.URI().Draw(rt, "VP id")
		}

		if rapid.Bool().Draw(rt, "holder") {
			vp["holder"] = "did:ex:holder"
		}

		n := rapid.IntRange(0, 2).Draw(rt, "credentials")

		var creds []any

		for i := 0; i < n; i++ {
			doc, _ := credGen{LD: true, Valid: true, Version: v, NoSchema: true}.draw(rt)
			creds = append(creds, vk.Clone(doc))
		}

		if n > 0 {
			vp["verifiableCredential"] = creds
		}

		if n == 1 && rapid.Bool().Draw(rt, "one") {
			vp["verifiableCredential"] = creds[0]
		}

		for i := vk.Size(rt, "members", 0, 2); i > 0; i-- {
			vp[fmt.Sprint("t", i%12)] = ldValue(rt, 1)
		}

		where, nested := "", false

		bad := rapid.Bool().Draw(rt, "undefined")
		if bad {
			where = insertUndefined(rt, vp, func(p []any, o map[string]any) string {
				if len(p) == 0 {
					return "presentation"
				}

				nested = p[0] == "verifiableCredential"

				if strings.Contains(vk.JS(o["type"]), "VerifiableCredential") {
					return "credential"
				}

				return ""
			})
		}

		opts := vpOpts(verifiable.WithPresDisabledProofCheck())

		strict := !vk.Coin(rt, "lenient", 8)
		if strict {
			opts = append(opts, verifiable.WithPresStrictValidation())
		}

		if nested && v == 2 {
			// known finding: see TestC27_Findings
			strict = false
		}

		data, _ := json.Marshal(vp)
		_, err := verifiable.ParsePresentation(data, opts...)

		c.Class("v%d %d credentials strict=%v bad=%v accepted=%v", v, n, strict, bad, err == nil)
		c.Sample(map[string]any{"doc": vp, "where": where, "err": fmt.Sprint(err)})

		if bad && strict {
			c.NonTrivial(data)
		}

		switch {
		case !bad && err != nil:
			rt.Fatalf("refused (strict %v) although all is defined: %v\n%s", strict, err, data)
		case bad && strict && err == nil:
			rt.Fatalf("accepted with the undefined member %s\n%s", where, data)
		}
	})
}

func TestC27_BaseContext(t *testing.T) {
	routes := vk.SortedKeys(map[string]any{"parse": 1, "parse JSON": 1, "validate": 1, "created": 1, "validate JWT": 1})

	vk.Check(t, "contexts or types beyond the base ones", 6000, 100000, func(rt *rapid.T, c *vk.Case) {
		doc, v := credGen{LD: true, Valid: true, NoSchema: true}.draw(rt)
		doc = vk.CloneMap(doc)
		base := credCtx[v]

		ctxs := []any{base}
		pool := []any{vk.ExtContextURL, ctxBBS, "https://a.example/c1", "https://a.example/c2", credCtx[3-v]}

		for i := rapid.IntRange(0, 3).Draw(rt, "contexts"); i > 0; i-- {
			if vk.Coin(rt, "inline", 5) {
				ctxs = append(ctxs, map[string]any{"inl": "https://verif.example/inl#x"})
			} else {
				ctxs = append(ctxs, rapid.SampledFrom(pool).Draw(rt, "context"))
			}
		}

		types := []any{"VerifiableCredential"}
		for i := vk.Pick(rt, "types", 0, 0, 1, 2); i > 0; i-- {
			types = append(types, vk.Pick(rt, "type", "T2", "T3", "Foo", "verifiablecredential"))
		}

		if len(types) > 1 && vk.Coin(rt, "swap", 4) {
			types[0], types[1] = types[1], types[0]
		}

		doc["@context"], doc["type"] = ctxs, types
		if len(ctxs) == 1 && v == 1 && rapid.Bool().Draw(rt, "context text") {
			doc["@context"] = base
		}

		if len(types) == 1 && rapid.Bool().Draw(rt, "type text") {
			doc["type"] = types[0]
		}

		extended := rapid.Bool().Draw(rt, "extended")
		allowedBase := vk.Pick(rt, "allowed base", base, base, base, base, credCtx[3-v], vk.ExtContextURL)
		allowCtx, allowType := map[string]bool{allowedBase: true}, map[string]bool{"VerifiableCredential": true}

		var opt verifiable.CredentialOpt

		if extended {
			var customCtx, customTypes []string

			for _, x := range pool {
				if vk.Coin(rt, "list context", 2) {
					customCtx = append(customCtx, x.(string)) //nolint:forcetypeassert
					allowCtx[x.(string)] = true               //nolint:forcetypeassert
				}
			}

			for _, x := range []string{"T2", "T3", "Foo"} {
				if vk.Coin(rt, "list type", 2) {
					customTypes = append(customTypes, x)
					allowType[x] = true
				}
			}

			opt = verifiable.WithBaseContextExtendedValidation(allowedBase, customCtx, customTypes)
		} else {
			opt = verifiable.WithBaseContextValidation(allowedBase)
		}

		want, seen := yes, map[string]bool{}

		for _, x := range ctxs {
			s, ok := x.(string)
			if !ok || !allowCtx[s] {
				want = no
			} else if seen[s] {
				want = min(want, maybe)
			}

			seen[s] = true
		}

		for _, x := range types {
			if !allowType[x.(string)] { //nolint:forcetypeassert
				want = no
			}

			if seen[x.(string)] { //nolint:forcetypeassert
				want = min(want, maybe)
			}

			seen[x.(string)] = true //nolint:forcetypeassert
		}

		// the data model asks for the base context first and, in the schema, for the base type
		route := rapid.SampledFrom(routes).Draw(rt, "route")
		opts := parseOpts(verifiable.WithDisabledProofCheck(), opt)

		if rapid.Bool().Draw(rt, "strict") {
			opts = append(opts, verifiable.WithStrictValidation())
		}

		err := strictRoutes[route](doc, opts)

		if len(ctxs) > 1 || len(types) > 1 {
			c.NonTrivial(ctxs, types, allowedBase, vk.JS(allowCtx), vk.JS(allowType), route)
		}

		c.Class("v%d %s extended=%v want=%d accepted=%v", v, route, extended, want, err == nil)
		c.Sample(map[string]any{"contexts": ctxs, "types": types, "allowed contexts": allowCtx, "allowed types": allowType, "err": fmt.Sprint(err)})

		switch {
		case want == yes && err != nil:
			rt.Fatalf("refused (%s, extended %v) %v %v, allowed %v %v: %v", route, extended, ctxs, types, allowCtx, allowType, err)
		case want == no && err == nil:
			rt.Fatalf("accepted (%s, extended %v) %v %v, allowed %v %v", route, extended, ctxs, types, allowCtx, allowType)
		}
	})
}

func TestC27_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		base := func() map[string]any {
			return map[string]any{
				"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL}, "type": []any{"VerifiableCredential"}, "id": "did:ex:cred",
				"issuer": "did:ex:iss", "issuanceDate": "2020-01-02T03:04:05Z",
				"credentialSubject": []any{map[string]any{"id": "did:ex:a"}, map[string]any{"id": "did:ex:b", "t0": "x"}},
			}
		}

		for _, route := range []string{"parse", "parse JSON", "validate", "created", "validate JWT"} {
			kc := c()
			kc.NonTrivial(route)

			opts := parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithStrictValidation())
			if err := strictRoutes[route](base(), opts); err != nil {
				t.Fatalf("%s refuses two subjects: %v", route, err)
			}

			doc := base()
			doc["credentialSubject"].([]any)[1].(map[string]any)["undef"] = "x" //nolint:forcetypeassert

			if strictRoutes[route](doc, opts) == nil {
				t.Fatalf("%s accepts an undefined member in one of two subjects", route)
			}

			for _, opt := range []verifiable.CredentialOpt{
				verifiable.WithBaseContextValidation(verifiable.V1ContextURI),
				verifiable.WithBaseContextExtendedValidation(verifiable.V1ContextURI, nil, nil),
			} {
				doc = base()
				doc["@context"] = verifiable.V1ContextURI
				opts = parseOpts(verifiable.WithDisabledProofCheck(), opt)

				if err := strictRoutes[route](doc, opts); err != nil {
					t.Fatalf("%s refuses the base context: %v", route, err)
				}

				doc["@context"] = []any{verifiable.V1ContextURI, map[string]any{"x": "https://x.example/"}}

				if strictRoutes[route](doc, opts) == nil {
					t.Fatalf("%s accepts an inline context", route)
				}
			}

			kc.Sample(doc)
		}
	})
}

func TestC27_Findings(t *testing.T) {
	vk.Known(t, "v2-presented-credential-unchecked", func() bool {
		_, err := verifiable.ParsePresentation(vk.MustJSON(map[string]any{
			"@context": []any{verifiable.V2ContextURI}, "type": []any{"VerifiablePresentation"},
			"verifiableCredential": []any{map[string]any{
				"@context": []any{verifiable.V2ContextURI}, "type": []any{"VerifiableCredential"}, "issuer": "did:ex:iss",
				"credentialSubject": map[string]any{"id": "did:ex:a", "undef": "x"},
			}},
		}), vpOpts(verifiable.WithPresDisabledProofCheck(), verifiable.WithPresStrictValidation())...)

		return err == nil
	})
}

package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// credGen tunes credential generation.
type credGen struct {
	Version   int    // 0 any, 1, 2
	Issuer    string // fixed issuer id
	SingleSub bool   // exactly one subject object, with an id
	LD        bool   // every member defined by the contexts (processable as RDF without loss)
	Related   bool   // may carry related resources
	Valid     bool   // currently valid dates only
	NoSchema  bool   // no credentialSchema member
	SmallNums bool   // numbers every format keeps
	Plain     bool   // no odd values (for textual formats)
	NoStatus  bool
	Loose     bool // need not satisfy the JSON schema of its data model
}

var credCtx = map[int]string{1: verifiable.V1ContextURI, 2: verifiable.V2ContextURI}

// fieldName is a custom member name that no data model gives a meaning to.
func fieldName() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := fieldFilter(vk.Name().Draw(t, "fname"))

		switch rapid.IntRange(0, 24).Draw(t, "framed") {
		case 24:
			return vk.Pick(t, "space", " ", "\t", "\u00a0") + s
		case 23:
			return s + vk.Pick(t, "space", " ", "  ", "\n", ".", "#", "/")
		case 22:
			return "X" + s + "_" + s
		}

		return s
	})
}

func fieldFilter(s string) string {
	switch s {
	case "id", "type", "vc", "vp", "iss", "sub", "aud", "exp", "nbf", "iat", "jti", "cnf", "name", "proof":
		return "q" + s
	}

	return s
}

func jsonOpts(depth int) vk.JSONOpts {
	return vk.JSONOpts{Depth: depth, MaxWidth: 3, Names: fieldName()}
}

// ldValue generates a value for a defined term that has an RDF meaning.
func ldValue(rt *rapid.T, depth int) any {
	top := 6
	if depth <= 0 {
		top = 3
	}

	switch rapid.IntRange(0, top).Draw(rt, "ldkind") {
	case 0, 1:
		return vk.Word().Draw(rt, "ldstr")
	case 2:
		return float64(rapid.IntRange(-100000, 100000).Draw(rt, "ldnum"))
	case 3:
		return rapid.Bool().Draw(rt, "ldbool")
	case 4, 5:
		return ldObj(rt, depth-1)
	default:
		n := rapid.IntRange(1, 3).Draw(rt, "ldlen")

		var out []any

		seen := map[string]bool{}

		for i := 0; i < n; i++ {
			v := ldValue(rt, 0)
			if k := vk.JS(v); !seen[k] {
				seen[k] = true
				out = append(out, v)
			}
		}

		return out
	}
}

// ldObj generates an object with defined members only.
func ldObj(rt *rapid.T, depth int) map[string]any {
	out := map[string]any{}
	n := rapid.IntRange(1, 3).Draw(rt, "ldmembers")

	for i := 0; i < n; i++ {
		out[fmt.Sprintf("t%d", rapid.IntRange(0, 11).Draw(rt, "ldterm"))] = ldValue(rt, depth)
	}

	if vk.Coin(rt, "ldtype", 4) {
		out["type"] = vk.Pick(rt, "ldT", "T0", "T1")
	}

	if vk.Coin(rt, "lddate", 6) {
		out["tDate"] = "20" + rapid.StringMatching(`[0-9]{2}-0[1-9]-1[0-9]T1[0-9]:[0-5][0-9]:[0-5][0-9]Z`).Draw(rt, "date")
	}

	if vk.Coin(rt, "ldref", 6) {
		out["tRef"] = vk.URI().Draw(rt, "ref")
	}

	if vk.Coin(rt, "ldlist", 8) {
		out["tList"] = []any{vk.Word().Draw(rt, "l1"), vk.Word().Draw(rt, "l2")}
	}

	return out
}

func (g credGen) value(rt *rapid.T, depth int) any {
	if g.LD {
		return ldValue(rt, depth)
	}

	return anyValue(rt, depth)
}

// anyValue is a JSON value, now and then one nested deeper than most.
func anyValue(rt *rapid.T, depth int) any {
	v := vk.JSON(jsonOpts(depth)).Draw(rt, "value")

	if vk.Coin(rt, "deep", 10) {
		for i := rapid.IntRange(1, 4).Draw(rt, "levels"); i > 0; i-- {
			if vk.Coin(rt, "in object", 3) {
				v = map[string]any{fieldName().Draw(rt, "deep name"): v}
			} else {
				v = []any{v}
			}

			if vk.Coin(rt, "beside", 3) {
				v = []any{map[string]any{fieldName().Draw(rt, "beside name"): vk.Word().Draw(rt, "beside value")}, v}
			}
		}
	}

	return v
}

func (g credGen) members(rt *rapid.T, out map[string]any, maxN, depth int, prefix string) {
	n := rapid.IntRange(0, maxN).Draw(rt, prefix+"#")

	for i := 0; i < n; i++ {
		if g.LD {
			out[fmt.Sprintf("t%d", rapid.IntRange(0, 11).Draw(rt, "term"))] = ldValue(rt, depth)
		} else {
			name := prefix + fieldName().Draw(rt, "member")
			if prefix == "" {
				name = fieldFilter(name)
			}

			out[name] = anyValue(rt, depth)
		}
	}
}

func timeText(rt *rapid.T, label string, valid bool, past bool) string {
	if valid {
		y := rapid.IntRange(2000, 2019).Draw(rt, label+"Y")
		if !past {
			y += 60
		}

		t := time.Date(y, time.Month(rapid.IntRange(1, 12).Draw(rt, label+"M")), rapid.IntRange(1, 28).Draw(rt, label+"D"),
			rapid.IntRange(0, 23).Draw(rt, label+"h"), rapid.IntRange(0, 59).Draw(rt, label+"m"), rapid.IntRange(0, 59).Draw(rt, label+"s"), 0, time.UTC)

		return t.Format(time.RFC3339)
	}

	t := vk.Time().Draw(rt, label)
	s := t.Format(time.RFC3339Nano)

	if vk.Coin(rt, label+"0", 6) && !strings.Contains(s, ".") {
		i := len(s) - 1
		if !strings.HasSuffix(s, "Z") {
			i = len(s) - 6
		}

		s = s[:i] + vk.Pick(rt, label+"z", ".000", ".0", ".500") + s[i:]
	}

	return s
}

func (g credGen) typed(rt *rapid.T, label string, types ...string) map[string]any {
	out := map[string]any{"id": vk.URI().Draw(rt, label+"id"), "type": rapid.SampledFrom(types).Draw(rt, label+"type")}
	g.members(rt, out, 2, 1, "")

	return out
}

// anon is typed, without an id now and then where the data model leaves it out.
func (g credGen) anon(rt *rapid.T, free bool, label string, types ...string) map[string]any {
	out := g.typed(rt, label, types...)
	if (free || g.Loose) && vk.Coin(rt, label+" anonymous", 3) {
		delete(out, "id")

		if vk.Coin(rt, label+" bare", 3) {
			return map[string]any{"type": out["type"]}
		}
	}

	return out
}

func oneOrMany(rt *rapid.T, label string, f func() any) any {
	switch rapid.IntRange(0, 3).Draw(rt, label+"n") {
	case 0, 1:
		return f()
	case 2:
		return []any{f()}
	default:
		return []any{f(), f()}
	}
}

// draw generates a valid credential document.
func (g credGen) draw(rt *rapid.T) (map[string]any, int) {
	v := g.Version
	if v == 0 {
		v = rapid.IntRange(1, 2).Draw(rt, "datamodel")
	}

	doc := map[string]any{}
	ctx := []any{credCtx[v]}

	if g.LD || vk.Coin(rt, "extctx", 2) {
		ctx = append(ctx, vk.ExtContextURL)
	}

	if !g.LD && vk.Coin(rt, "inlinectx", 4) {
		ctx = append(ctx, map[string]any{"inl": "https://verif.example/inl#" + vk.Word().Draw(rt, "inl")})
		if vk.Coin(rt, "inline2", 3) {
			ctx = append(ctx, map[string]any{"inl2": "https://verif.example/inl2"})
		}
	}

	doc["@context"] = ctx
	if v == 1 && len(ctx) == 1 && vk.Coin(rt, "ctxstring", 3) {
		doc["@context"] = ctx[0]
	}

	if vk.Coin(rt, "hasID", 3) == false {
		doc["id"] = vk.URI().Draw(rt, "credID")
	}

	types := []any{"VerifiableCredential"}
	if g.LD {
		if rapid.Bool().Draw(rt, "T") {
			types = append(types, vk.Pick(rt, "ldtypeT", "T2", "T3"))
		}
	} else {
		for i := vk.Size(rt, "types#", 0, 2); i > 0; i-- {
			types = append(types, "C"+vk.Word().Draw(rt, "type"))
		}

		if len(types) == 3 && types[1] == types[2] {
			types = types[:2]
		}
	}

	doc["type"] = types
	if len(types) == 1 && vk.Coin(rt, "typestring", 2) {
		doc["type"] = types[0]
	}

	iss := g.Issuer
	if iss == "" {
		iss = vk.URI().Draw(rt, "issuer")
	}

	doc["issuer"] = iss

	if vk.Coin(rt, "issuerobj", 3) {
		o := map[string]any{"id": iss}
		g.members(rt, o, 2, 1, "")
		doc["issuer"] = o
	}

	from, until := "issuanceDate", "expirationDate"
	if v == 2 {
		from, until = "validFrom", "validUntil"
	}

	if v == 1 || rapid.Bool().Draw(rt, "hasFrom") {
		doc[from] = timeText(rt, "from", g.Valid, true)
	}

	if rapid.Bool().Draw(rt, "hasUntil") {
		doc[until] = timeText(rt, "until", g.Valid, false)
	}

	sub := func(withID bool) any {
		o := map[string]any{}
		if withID {
			o["id"] = vk.URI().Draw(rt, "subjectID")
		}

		g.members(rt, o, 4, 2, "")

		if len(o) == 0 {
			o["t0"] = "x"
		}

		return o
	}

	switch {
	case g.SingleSub:
		doc["credentialSubject"] = sub(true)
	default:
		withID := vk.Coin(rt, "subID", 3) == false

		switch rapid.IntRange(0, 7).Draw(rt, "subjkind") {
		case 0:
			doc["credentialSubject"] = []any{sub(withID), sub(rapid.Bool().Draw(rt, "subID2"))}
		case 1:
			doc["credentialSubject"] = []any{sub(withID)}
		case 2:
			if v == 1 {
				doc["credentialSubject"] = vk.URI().Draw(rt, "subjString")

				break
			}

			doc["credentialSubject"] = sub(withID)
		default:
			doc["credentialSubject"] = sub(withID)
		}
	}

	T := []string{"T0", "T1", "T2"}
	if !g.LD {
		T = []string{"S" + vk.Word().Draw(rt, "stype"), "Xtype2020"}
	}

	opt := func(name string, n int, f func() any) {
		if vk.Coin(rt, "has "+name, n) {
			doc[name] = f()
		}
	}

	if !g.NoStatus {
		opt("credentialStatus", 3, func() any {
			if v == 2 {
				return oneOrMany(rt, "status", func() any { return g.anon(rt, false, "status", T...) })
			}

			return g.anon(rt, false, "status", T...)
		})
	}

	if !g.NoSchema {
		opt("credentialSchema", 4, func() any {
			return oneOrMany(rt, "schema", func() any { return g.anon(rt, false, "schema", T...) })
		})
	}

	opt("evidence", 4, func() any {
		return oneOrMany(rt, "evidence", func() any { return g.anon(rt, v == 2, "evidence", T...) })
	})
	opt("termsOfUse", 4, func() any { return oneOrMany(rt, "terms", func() any { return g.anon(rt, true, "terms", T...) }) })
	opt("refreshService", 5, func() any { return g.anon(rt, false, "refresh", T...) })

	if g.Related && v == 2 {
		opt("relatedResource", 4, func() any {
			var out []any

			for i := vk.Size(rt, "related#", 1, 2); i > 0; i-- {
				r := map[string]any{"id": fmt.Sprintf("https://res.example/%d", i)}
				if vk.Coin(rt, "media", 2) {
					r["mediaType"] = "application/ld+json"
				}

				if vk.Coin(rt, "sri", 2) {
					r["digestSRI"] = "sha256-" + vk.Word().Draw(rt, "sri")
				} else {
					r["digestMultibase"] = "u" + vk.Word().Draw(rt, "mb")
				}

				out = append(out, r)
			}

			return out
		})
	}

	if g.LD {
		g.members(rt, doc, 2, 1, "")
	} else {
		g.members(rt, doc, 3, 2, "x")
	}

	return doc, v
}

func parseOpts(extra ...verifiable.CredentialOpt) []verifiable.CredentialOpt {
	return append([]verifiable.CredentialOpt{
		verifiable.WithJSONLDDocumentLoader(vk.Loader()), verifiable.WithDisabledRelatedResourceCheck(),
	}, extra...)
}

func mustJSON(rt *rapid.T, v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}

	return b
}

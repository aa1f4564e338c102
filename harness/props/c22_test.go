package props

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// A model of DID configurations: every entry is drawn together with what it claims and which rules it breaks.
type linkage struct {
	entry    any // as put into linked_dids
	form     string
	issuers  []string // what it states as issuer
	subjects []string
	origin   string
	signer   string // DID whose key it verifies with; "" for none
	broken   string // the rule it breaks whatever DID and domain are asked for
	expired  bool
}

const (
	linkNo = iota
	linkMaybe
	linkYes
)

// links tells if the entry links a DID and a domain.
func (l *linkage) links(did, domain string) int {
	all, some := true, false

	for i, list := range [][]string{l.issuers, l.subjects} {
		found := false

		for _, x := range list {
			found = found || x == did
			all = all && x == did
		}

		if i == 0 {
			some = found
		} else {
			some = some && found
		}
	}

	switch {
	case l.broken != "", !some, !sameOrigin(l.origin, domain), l.signer != did:
		return linkNo
	case !all, l.expired:
		return linkMaybe
	}

	return linkYes
}

// sameOrigin: scheme, host and port are the same; things without a scheme are only the same as themselves.
func sameOrigin(a, b string) bool {
	cut := func(s string) string {
		scheme, rest, ok := strings.Cut(s, "://")
		if !ok {
			return s
		}

		host, _, _ := strings.Cut(rest, "/")

		return scheme + "://" + host
	}

	return cut(a) == cut(b)
}

var (
	linkDIDs    = []string{"did:ex:aaa", "did:ex:bbb", "did:ex:aab", "did:ex:AAA", "did:ex:aaaa", "did:ex:aa"}
	linkOrigins = []string{
		"https://a.example", "https://b.example", "http://a.example", "https://a.example:8443", "https://sub.a.example",
		"https://a.example/", "https://a.example/path", "a.example", "b.example", "localhost:8080", "localhost:9090",
		"https://a.example.b.example", "https://www.a.example", "https://www.b.example",
		"https://a.example:844",
	}
)

// drawLinkage draws an entry that is meant for the DID and the domain.
func drawLinkage(rt *rapid.T, did, domain string, keys map[string]*vk.Key, defects ...string) *linkage {
	l := &linkage{form: vk.Pick(rt, "form", "ld", "jwt"), origin: domain, signer: did}

	other := func(label, v string, from []string) string {
		return rapid.SampledFrom(from).Filter(func(s string) bool { return s != v }).Draw(rt, label)
	}

	issued, expires := time.Date(2020, 12, 4, 14, 8, 28, 0, time.UTC), time.Date(2099, 1, 2, 3, 4, 5, 0, time.UTC)
	issuer, subject := did, did

	defect := ""

	if len(defects) > 0 {
		defect = vk.Pick(rt, "defect", defects...)
	} else if vk.Coin(rt, "defective", 2) {
		defect = vk.Pick(rt, "defect", "garbage", "issuer", "subject", "issuer+subject", "origin", "expired", "type", "id",
			"no issued", "no expiry", "no origin", "odd origin", "no subject", "no subject id", "odd subject id", "subjects",
			"empty subjects", "string subject", "undefined", "key", "kid", "flip", "altered", "no proof", "extra header",
			"extra claim", "typ", "no kid")
	}

	switch defect {
	case "garbage":
		l.broken = defect
		l.entry = vk.Pick[any](rt, "garbage", "", "x", "a.b.c", "..", "e30.e30.", "e30.e30.e30", map[string]any{},
			map[string]any{"@context": nil}, map[string]any{"credentialSubject": []any{}},
			map[string]any{"@context": []any{verifiable.V1ContextURI}, "type": "VerifiableCredential", "issuer": did},
			"{}", "null", "[]", "\"x\"")

		return l
	case "issuer":
		issuer = other("issuer", did, linkDIDs)
	case "subject":
		subject = other("subject", did, linkDIDs)
	case "issuer+subject":
		issuer = other("issuer", did, linkDIDs)
		subject = issuer
		l.signer = vk.Pick(rt, "signer", issuer, did)
	case "origin":
		l.origin = other("origin", domain, linkOrigins)

		if scheme, host, ok := strings.Cut(domain, "://"); ok && rapid.Bool().Draw(rt, "nearOrigin") {
			host, path, _ := strings.Cut(host, "/")
			last := host[len(host)-1:]
			l.origin = rapid.SampledFrom([]string{
				"://www." + host, "://www2." + host, "://m." + host, "://*." + host, "://x" + host, "://" + host[1:],
				"://" + host + last, "://" + host[:len(host)-1], "://" + host + ".com", "://" + host + "-x", "://" + path + "x." + host,
				"://b.example/" + host, "://b.example/?" + host, "://b.example/#://" + host, "s://" + host, "+x://" + host,
				"://" + strings.ReplaceAll(host, ".", "-"), "://" + strings.ReplaceAll(host, "a", "\u0430"),
			}).Filter(func(o string) bool { return scheme+o != domain && !sameOrigin(scheme+o, domain) }).Draw(rt, "near")
			l.origin = scheme + l.origin
		}
	case "expired":
		expires, l.expired = time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC), true
	case "key":
		l.signer = ""
	}

	subj := map[string]any{"id": subject, "origin": l.origin}
	doc := map[string]any{
		"@context": []any{verifiable.V1ContextURI, vk.DIDConfigContextURL},
		"type":     []any{"VerifiableCredential", "DomainLinkageCredential"}, "issuer": issuer,
		"issuanceDate": issued.Format(time.RFC3339), "expirationDate": expires.Format(time.RFC3339),
		"credentialSubject": subj,
	}

	if vk.Coin(rt, "types", 5) {
		doc["type"] = []any{"DomainLinkageCredential", "VerifiableCredential"}
	}

	if vk.Coin(rt, "issuerobject", 4) {
		doc["issuer"] = map[string]any{"id": issuer}
	}

	l.issuers, l.subjects = []string{issuer}, []string{subject}

	switch defect { // rules that the contents break
	case "type":
		doc["type"] = vk.Pick(rt, "types", []any{"VerifiableCredential"}, []any{"VerifiableCredential", "LinkedDomains"})
	case "id":
		doc["id"] = "https://a.example/credential"
	case "no expiry":
		delete(doc, "expirationDate")
	case "no issued":
		delete(doc, "issuanceDate")
	case "no origin":
		delete(subj, "origin")
	case "odd origin":
		subj["origin"] = vk.Pick[any](rt, "origin", 7, true, []any{l.origin}, map[string]any{"id": l.origin}, nil, "")
	case "no subject":
		delete(doc, "credentialSubject")
	case "no subject id":
		delete(subj, "id")
	case "odd subject id":
		subj["id"] = vk.Pick(rt, "subject", "https://a.example", "urn:x:a", "did:ex")
	case "subjects":
		doc["credentialSubject"] = []any{subj, map[string]any{"id": subject, "origin": l.origin}}
	case "empty subjects":
		doc["credentialSubject"] = []any{}
	case "string subject":
		doc["credentialSubject"] = subject
	case "undefined": // tokens are not processed as JSON-LD
		l.form = "ld"
		vk.Pick(rt, "at", doc, subj)["undefinedTerm"] = vk.Pick[any](rt, "value", "x", map[string]any{"y": "z"})
	}

	switch defect {
	case "type", "id", "no expiry", "no issued", "no origin", "odd origin", "no subject", "no subject id",
		"odd subject id", "subjects", "empty subjects", "string subject", "undefined", "flip", "altered", "no proof":
		l.broken = defect
	}

	if defect == "" && vk.Coin(rt, "listed", 6) {
		doc["credentialSubject"] = []any{subj}
	}

	if defect == "altered" { // signed for something else
		switch vk.Pick(rt, "alter", "origin", "subject", "expiry") {
		case "origin":
			subj["origin"] = "https://other.example"
		case "subject":
			subj["id"] = "did:ex:other"
		case "expiry":
			doc["expirationDate"] = "2098-01-02T03:04:05Z"
		}
	}

	right := vk.CloneMap(doc)

	if defect == "altered" {
		right["credentialSubject"].(map[string]any)["origin"] = l.origin //nolint:forcetypeassert
		right["credentialSubject"].(map[string]any)["id"] = subject      //nolint:forcetypeassert
		right["expirationDate"] = expires.Format(time.RFC3339)
	}

	holder := l.signer // whose key signs
	kid := holder + "#k"

	switch {
	case defect == "kid": // a genuine signature of someone else
		holder = other("holder", did, linkDIDs)
		l.signer, kid = holder, holder+"#k"
	case defect == "key": // the key of someone else under the DID's own key ID
		holder, kid = other("holder", did, linkDIDs), did+"#k"
		if vk.Coin(rt, "missing", 3) {
			kid = did + "#none"
		}
	}

	if l.form == "ld" {
		if defect == "no proof" {
			l.entry = doc

			return l
		}

		signed, err := vk.DecodeJSON(signLD(rt, doc, c05VM{owner: holder, id: kid, key: keys[holder]}))
		if err != nil {
			rt.Fatal(err)
		}

		m := signed.(map[string]any) //nolint:forcetypeassert

		switch defect {
		case "altered":
			for _, k := range []string{"credentialSubject", "expirationDate"} {
				m[k] = right[k]
			}
		case "flip":
			p := m["proof"].([]any)[0].(map[string]any) //nolint:forcetypeassert
			p["jws"] = flipped(rt, p["jws"].(string))
		}

		l.entry = m

		return l
	}

	hdr := map[string]any{"alg": string(keys[holder].Kind), "kid": kid}
	claims := map[string]any{
		"vc": vk.CloneMap(doc), "iss": issuer, "sub": subject, "nbf": issued.Unix(), "exp": expires.Unix(),
	}

	inVC := claims["vc"].(map[string]any) //nolint:forcetypeassert

	switch defect {
	case "no expiry":
		delete(claims, "exp")
	case "no issued":
		delete(claims, "nbf")
	case "no subject", "no subject id", "odd subject id", "empty subjects", "string subject":
		if vk.Coin(rt, "keepsub", 2) {
			delete(claims, "sub")
		}

		if defect == "no subject id" && claims["sub"] != nil { // the claim stands for it
			l.broken = ""
			l.subjects = append(l.subjects, "?")
		}

		if defect == "odd subject id" {
			claims["sub"] = subj["id"]
		}
	case "extra header":
		l.broken = defect
		hdr[vk.Pick(rt, "header", "cty", "jku", "x")] = "JWT"
	case "extra claim":
		l.broken = defect
		claims[vk.Pick(rt, "claim", "aud", "jti", "nonce", "x")] = "https://a.example"
	case "typ":
		l.broken = defect
		hdr["typ"] = vk.Pick(rt, "typ", "jwt", "vc+sd-jwt", "")
	case "no kid":
		l.broken = defect
		delete(hdr, "kid")
	case "altered": // the claims do not agree with what is signed: alter the payload after signing
	case "id":
		if rapid.Bool().Draw(rt, "jti") {
			delete(inVC, "id")
			claims["jti"] = doc["id"]
		}
	}

	if vk.Coin(rt, "typ", 3) && defect != "typ" {
		hdr["typ"] = "JWT"
	}

	if vk.Coin(rt, "iat", 3) && defect != "no issued" {
		claims["iat"] = issued.Unix()
	}

	// What both a claim and a member of vc state needs only one of them.
	drop := func(name, member string) {
		_, ok := claims[name]
		_, ok2 := inVC[member]

		if ok && ok2 {
			switch rapid.IntRange(0, 5).Draw(rt, "drop "+name) {
			case 0:
				delete(claims, name)
			case 1:
				delete(inVC, member)
			}
		}
	}
	drop("nbf", "issuanceDate")
	drop("exp", "expirationDate")

	switch rapid.IntRange(0, 7).Draw(rt, "iss") {
	case 0:
		l.issuers = append(l.issuers, other("iss", issuer, linkDIDs))
		claims["iss"] = l.issuers[1]
	case 1:
		l.issuers = append(l.issuers, "?")
		delete(vk.Pick(rt, "where", claims, inVC), "iss")
	}

	if s, ok := inVC["credentialSubject"].(map[string]any); ok && s["id"] == subject && vk.Coin(rt, "sub", 5) {
		l.subjects = append(l.subjects, other("sub", subject, linkDIDs))
		claims["sub"] = l.subjects[1]
	}

	if defect == "no proof" {
		hdr["alg"] = "none"
		l.entry = vk.B64(vk.MustJSON(hdr)) + "." + vk.B64(vk.MustJSON(claims)) + "."

		return l
	}

	tok := vk.MakeJWS(hdr, vk.MustJSON(claims), keys[holder])

	switch defect {
	case "altered":
		vcm := vk.CloneMap(inVC)
		for _, k := range []string{"credentialSubject", "expirationDate"} {
			if vcm[k] != nil {
				vcm[k] = right[k]
			}
		}

		claims["vc"], claims["iat"] = vcm, issued.Unix()+1
		claims["sub"], claims["exp"] = subject, expires.Unix()

		parts := strings.Split(tok, ".")
		parts[1] = vk.B64(vk.MustJSON(claims))
		tok = strings.Join(parts, ".")
	case "flip":
		tok = flipped(rt, tok)
	}

	l.entry = tok

	return l
}

// flipped changes a bit of the signature of a compact JWS.
func flipped(rt *rapid.T, tok string) string {
	i := strings.LastIndex(tok, ".")
	sig := vk.UnB64(tok[i+1:])
	sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")

	return tok[:i+1] + vk.B64(sig)
}

func linkWorld(rt *rapid.T) (*vk.World, map[string]*vk.Key) {
	w, keys := vk.NewWorld(), map[string]*vk.Key{}

	for _, d := range linkDIDs {
		keys[d] = vk.GetKey(vk.Pick(rt, "kind", vk.EdDSA, vk.ES256), d)
		w.AddDID(d, vk.VM{Fragment: "k", Key: keys[d]})
	}

	return w, keys
}

// drawConfig draws a configuration and what it has to say about a DID and a domain.
func drawConfig(rt *rapid.T, did, domain string, keys map[string]*vk.Key) ([]byte, []*linkage, string) {
	var (
		links   []*linkage
		entries = []any{}
	)

	for i, n := 0, vk.Size(rt, "entries", 0, 4); i < n; i++ {
		d, o := did, domain
		if vk.Coin(rt, "unrelated", 4) {
			d, o = vk.Pick(rt, "did", linkDIDs...), vk.Pick(rt, "origin", linkOrigins...)
		}

		l := drawLinkage(rt, d, o, keys)
		links = append(links, l)
		entries = append(entries, l.entry)
	}

	// many entries: some that do not count, again and again, around the others
	if len(links) > 0 && vk.Coin(rt, "crowd", 4) {
		var defects []string
		if rapid.Bool().Draw(rt, "candidates") { // that only the proof can tell from the good ones
			defects = []string{"key", "kid", "flip", "altered", "no proof"}
		}

		fill := drawLinkage(rt, did, domain, keys, defects...)
		if fill.links(did, domain) != linkNo {
			fill = links[0]
		}

		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "fill"); i < n; i++ {
			links, entries = append([]*linkage{fill}, links...), append([]any{fill.entry}, entries...)
		}

		if vk.Coin(rt, "turned", 4) {
			slices.Reverse(links)
			slices.Reverse(entries)
		}
	}

	cfg := map[string]any{"@context": vk.DIDConfigContextURL, "linked_dids": entries}
	broken := ""

	if vk.Coin(rt, "broken", 8) {
		broken = vk.Pick(rt, "how", "extra", "no context", "no entries", "array", "text")
	}

	var raw any = cfg

	switch broken {
	case "extra":
		cfg[vk.Pick(rt, "member", "id", "x", "linked_DIDs")] = "x"
	case "no context":
		delete(cfg, "@context")
	case "no entries":
		delete(cfg, "linked_dids")
	case "array":
		raw = []any{cfg}
	case "text":
		return vk.MustJSON(cfg)[1:], links, broken
	}

	return vk.MustJSON(raw), links, broken
}

func quietDIDConfig() { verifier.SetDebugOutput(io.Discard) }

func TestC22_Configurations(t *testing.T) {
	quietDIDConfig()

	vk.Check(t, "the configuration has an entry for the DID and the domain", 500, 20000, func(rt *rapid.T, c *vk.Case) {
		w, keys := linkWorld(rt)
		did, domain := vk.Pick(rt, "did", linkDIDs...), vk.Pick(rt, "domain", linkOrigins...)
		cfg, links, broken := drawConfig(rt, did, domain, keys)

		// the same configuration is asked about other pairs, too
		pairs := [][2]string{{did, domain}}
		for i := 0; i < 2; i++ {
			pairs = append(pairs, [2]string{vk.Pick(rt, "did2", linkDIDs...), vk.Pick(rt, "domain2", linkOrigins...)})
		}

		for _, p := range pairs {
			err := verifier.VerifyDIDAndDomain(cfg, p[0], p[1], verifier.WithJSONLDDocumentLoader(vk.Loader()),
				verifier.WithVDRegistry(w))

			want, notes := linkNo, []string{}

			for _, l := range links {
				r := l.links(p[0], p[1])
				want = max(want, r)
				notes = append(notes, fmt.Sprintf("%s:%s:%d", l.form, l.broken, r))
				if r == linkNo && l.broken != "" {
					c.Class("%s %s", l.form, l.broken)
				}
			}

			if broken != "" {
				want = linkNo
			}

			if err == nil && want == linkNo {
				rt.Fatalf("%v accepted (%s %v): %s", p, broken, notes, cfg)
			}

			if err != nil && want == linkYes {
				rt.Fatalf("%v refused (%v): %v: %s", p, notes, err, cfg)
			}

			c.Class("want %d accepted=%v entries=%d %s", want, err == nil, len(links), broken)
		}

		if len(links) > 0 {
			c.NonTrivial(did, domain, string(cfg))
		}
		c.Sample(map[string]any{"did": did, "domain": domain, "entries": len(links), "broken": broken})
	})
}

// stubHTTP answers requests for one URL.
type stubHTTP struct {
	url    string
	status int
	body   []byte
	fail   error
	cut    bool
}

func (s *stubHTTP) Do(r *http.Request) (*http.Response, error) {
	if s.fail != nil {
		return nil, s.fail
	}

	resp := &http.Response{StatusCode: http.StatusNotFound, Body: io.NopCloser(strings.NewReader("no such page"))}

	if r.Method == http.MethodGet && r.URL.String() == s.url {
		resp.StatusCode = s.status
		resp.Body = io.NopCloser(strings.NewReader(string(s.body)))

		if s.cut {
			resp.Body = io.NopCloser(io.MultiReader(strings.NewReader(string(s.body)), badReader{}))
		}
	}

	return resp, nil
}

type badReader struct{}

func (badReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

func TestC22_Client(t *testing.T) {
	quietDIDConfig()

	vk.Check(t, "the configuration has an entry for the DID and the domain", 300, 10000, func(rt *rapid.T, c *vk.Case) {
		w, keys := linkWorld(rt)
		did, domain := vk.Pick(rt, "did", linkDIDs...), vk.Pick(rt, "domain", linkOrigins[:5]...)
		cfg, links, broken := drawConfig(rt, did, domain, keys)

		served := vk.Pick(rt, "served", domain, domain, domain, "https://else.example")
		stub := &stubHTTP{url: served + "/.well-known/did-configuration.json", status: http.StatusOK, body: cfg}
		fault := ""

		if vk.Coin(rt, "faulty", 3) {
			switch fault = vk.Pick(rt, "fault", "status", "error", "cut"); fault {
			case "status":
				stub.status = vk.Pick(rt, "status", 201, 204, 301, 400, 404, 500)
			case "error":
				stub.fail = errors.New("no route")
			case "cut":
				stub.cut = true
			}
		}

		err := client.New(client.WithHTTPClient(stub), client.WithJSONLDDocumentLoader(vk.Loader()),
			client.WithVDRegistry(w)).VerifyDIDAndDomain(did, domain)

		want := linkNo
		for _, l := range links {
			want = max(want, l.links(did, domain))
		}

		if broken != "" || fault != "" || served != domain {
			want = linkNo
		}

		if err == nil && want == linkNo || err != nil && want == linkYes {
			rt.Fatalf("%s %s (served %s, fault %q, broken %q) should be %d: %v: %s", did, domain, served, fault, broken, want, err, cfg)
		}

		c.Class("want %d accepted=%v fault=%s", want, err == nil, fault)

		if len(links) > 0 {
			c.NonTrivial(did, domain, fault, string(cfg))
		}
		c.Sample(map[string]any{"did": did, "domain": domain, "fault": fault, "served": served})
	})
}

// plainLinkage is a configuration with one entry, as a token.
func plainLinkage(w *vk.World, origin, expires string) []byte {
	key := vk.GetKey(vk.EdDSA, "did:ex:aaa")
	w.AddDID("did:ex:aaa", vk.VM{Fragment: "k", Key: key})

	tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "kid": "did:ex:aaa#k"}, vk.MustJSON(map[string]any{
		"iss": "did:ex:aaa", "sub": "did:ex:aaa", "nbf": 1607090908,
		"vc": map[string]any{
			"@context": []any{verifiable.V1ContextURI, vk.DIDConfigContextURL}, "issuer": "did:ex:aaa",
			"type":              []any{"VerifiableCredential", "DomainLinkageCredential"},
			"credentialSubject": map[string]any{"id": "did:ex:aaa", "origin": origin}, "expirationDate": expires,
		},
	}), key)

	return vk.MustJSON(map[string]any{"@context": vk.DIDConfigContextURL, "linked_dids": []any{tok}})
}

func TestC22_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		for _, pair := range [][2]string{
			{"a.example", "b.example"}, {"localhost:8080", "localhost:9090"}, {"https:a", "https:b"}, {"/a", "/b"},
		} {
			w := vk.NewWorld()
			cfg := plainLinkage(w, pair[0], "2099-01-02T03:04:05Z")
			kc := c()
			kc.NonTrivial(pair)
			kc.Sample(pair)

			for _, domain := range pair {
				err := verifier.VerifyDIDAndDomain(cfg, "did:ex:aaa", domain, verifier.WithJSONLDDocumentLoader(vk.Loader()),
					verifier.WithVDRegistry(w))
				if (err == nil) != (domain == pair[0]) {
					t.Fatalf("a linkage to %s asked about %s: %v", pair[0], domain, err)
				}
			}
		}
	})
}

func TestC22_Findings(t *testing.T) {
	vk.Known(t, "expired-linkage-accepted", func() bool {
		w := vk.NewWorld()

		return verifier.VerifyDIDAndDomain(plainLinkage(w, "https://a.example", "2021-01-02T03:04:05Z"), "did:ex:aaa",
			"https://a.example", verifier.WithJSONLDDocumentLoader(vk.Loader()), verifier.WithVDRegistry(w)) == nil
	})
}

package props

import (
	"crypto/md5"  //nolint:gosec
	"crypto/sha1" //nolint:gosec
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// resWeb serves the related resources: what each URL gives can change.
type resWeb struct {
	mu    sync.Mutex
	pages map[string]*resPage
	gets  int
}

// resURLs are pages of their own, however alike their addresses are.
var resURLs = []string{"https://r.example/a", "https://r.example/a?v=1", "https://r.example/a?v=2", "https://r.example/A",
	"https://s.example/a"}

type resPage struct {
	fault string
	body  []byte
	past  [][]byte // bodies it had
}

func (w *resWeb) Do(r *http.Request) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()

	w.gets++

	p := w.pages[r.URL.String()]
	if p == nil {
		return &http.Response{StatusCode: http.StatusNotFound, Body: io.NopCloser(strings.NewReader("none"))}, nil
	}

	resp := &http.Response{StatusCode: http.StatusOK, Body: io.NopCloser(strings.NewReader(string(p.body)))}

	switch p.fault {
	case "error":
		return nil, errors.New("no route")
	case "status":
		resp.StatusCode = http.StatusInternalServerError
	case "created":
		resp.StatusCode = http.StatusCreated
	case "cut":
		resp.Body = io.NopCloser(io.MultiReader(strings.NewReader(string(p.body)), badReader{}))
	case "no body":
		resp.Body = nil
	case "empty":
		resp.Body = io.NopCloser(strings.NewReader(""))
	}

	return resp, nil
}

func sum(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		s := sha256.Sum256(b)
		return s[:]
	case "sha384":
		s := sha512.Sum384(b)
		return s[:]
	case "sha512":
		s := sha512.Sum512(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b) //nolint:gosec
		return s[:]
	case "sha512224":
		s := sha512.Sum512_224(b)
		return s[:]
	default:
		s := md5.Sum(b) //nolint:gosec
		return s[:]
	}
}

var digestEncodings = []multibase.Encoding{
	multibase.Base64pad, multibase.Base64, multibase.Base64url, multibase.Base64urlPad, multibase.Base58BTC,
	multibase.Base16, multibase.Base16Upper, multibase.Base32, multibase.Base32pad, multibase.Base36,
}

func mbase(e multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(e, b)
	if err != nil {
		panic(err)
	}

	return s
}

// drawDigest draws a digest of content: right, wrong, or (only in the second result) nobody's.
func drawDigest(rt *rapid.T, label string, content []byte) (res verifiable.RelatedResource, right bool) {
	enc := vk.Pick(rt, label+" encoding", digestEncodings...)
	alg := vk.Pick(rt, label+" algorithm", "sha256", "sha384", "sha512")
	right = true
	digest := sum(alg, content)
	multi := vk.Coin(rt, label+" multibase", 2)

	if multi {
		alg, digest = "sha256", sum("sha256", content)

		if rapid.Bool().Draw(rt, label+" header") {
			digest = append([]byte{0x12, 0x20}, digest...)
			enc = multibase.Base64url
		}
	}

	name := alg

	if vk.Coin(rt, label+" wrong", 3) {
		right = false

		switch vk.Pick(rt, label+" how", "bit", "bit", "cut", "longer", "empty", "short", "other algorithm", "unsupported",
			"other content", "text", "no dash", "label", "none") {
		case "bit":
			digest[len(digest)-1-rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "cut":
			digest = digest[:len(digest)-rapid.IntRange(1, len(digest)-1).Draw(rt, "cut")]
		case "longer":
			digest = append(digest, 0)
		case "empty":
			digest = nil
		case "short":
			digest = []byte{0x12, 0x20}[:rapid.IntRange(0, 2).Draw(rt, "n")]
			enc = multibase.Base64url
		case "other algorithm":
			digest = sum(vk.Pick(rt, "other", "sha1", "md5", "sha512224"), content)
		case "unsupported":
			multi, name = false, vk.Pick(rt, "unsupported", "sha1", "md5", "sha512224", "", "sha3", "sha-256", "sha2-256", "sha512/256")
			digest = sum(name, content)
		case "other content":
			digest = sum(alg, append([]byte("x"), content...))
		case "label":
			multi = false
			name = vk.Pick(rt, "otherlabel", "sha256", "sha384", "sha512")
			digest = sum(map[string]string{"sha256": "sha384", "sha384": "sha512", "sha512": "sha256"}[name], content)
		case "text":
			if multi {
				res.DigestMultiBase = vk.Pick(rt, "text", "x", "u", "m*", "uEiB", "=", "uE", "f1", "f1220")
			} else {
				res.DigestSRI = vk.Pick(rt, "text", "sha256-", "-", "sha256-x", "sha256-u", "sha256-uEg", "x", "sha384-u1")
			}

			return res, false
		case "no dash":
			res.DigestSRI = name + vk.Pick(rt, "dash", "", "|", "_", " ") + mbase(multibase.Base16, digest)

			return res, false
		case "none":
			return res, false
		}
	}

	if multi {
		res.DigestMultiBase = mbase(enc, digest)
	} else {
		res.DigestSRI = name + "-" + mbase(enc, digest)
	}

	return res, right
}

// drawRelated draws a related resource and tells if it has to be accepted (2), may be accepted (1) or not (0).
func drawRelated(rt *rapid.T, web *resWeb) (verifiable.RelatedResource, int) {
	url := vk.Pick(rt, "url", append([]string{"https://r.example/none"}, resURLs...)...)
	page := web.pages[url]

	bodies := [][]byte{[]byte("nothing")}
	if page != nil {
		bodies = append([][]byte{page.body}, page.past...)
	}

	at := 0
	if len(bodies) > 1 && vk.Coin(rt, "past", 3) {
		at = rapid.IntRange(0, len(bodies)-1).Draw(rt, "version")
	}

	res, right := drawDigest(rt, "digest", bodies[at])

	if vk.Coin(rt, "both", 6) {
		two, right2 := drawDigest(rt, "digest2", bodies[at])

		if res.DigestSRI == "" && two.DigestSRI != "" || res.DigestMultiBase == "" && two.DigestMultiBase != "" {
			if res.DigestSRI+res.DigestMultiBase == "" {
				right = right2 // one without is one that states none
			} else {
				right = right && right2
			}

			if res.DigestSRI == "" {
				res.DigestSRI = two.DigestSRI
			}

			if res.DigestMultiBase == "" {
				res.DigestMultiBase = two.DigestMultiBase
			}
		}
	}

	res.Id = url
	if vk.Coin(rt, "badurl", 15) {
		res.Id = vk.Pick(rt, "bad", "", "://x", "https://[::1", "https://r.example/%zz", "\x00")

		return res, 0
	}

	if vk.Coin(rt, "media", 3) {
		res.MediaType = "text/plain"
	}

	switch {
	case page == nil || !right || len(bodies[at]) == 0:
		return res, 0
	case page.fault != "" || len(bodies) > 1:
		return res, 1 // as it is or was in the cache
	}

	return res, 2
}

func TestC24_Resources(t *testing.T) {
	loader := vk.Loader()

	vk.Check(t, "there is a related resource", 8000, 200000, func(rt *rapid.T, c *vk.Case) {
		web := &resWeb{pages: map[string]*resPage{}}

		body := func() []byte {
			b := vk.Pick(rt, "body", "1", "2", "{}", "some content", "") + rapid.StringN(0, 5, -1).Draw(rt, "more")
			if vk.Coin(rt, "big", 60) {
				b = strings.Repeat("0123456789abcdef", vk.Pick(rt, "kilobytes", 4, 32, 64, 1024, 5000)*64) + b
			}

			return []byte(b)
		}

		for _, n := range resURLs {
			web.pages[n] = &resPage{body: body()}
		}

		opts := []func(*verifiable.RelatedResourceValidatorOptions){verifiable.WithHTTPClient(web)}
		if rapid.Bool().Draw(rt, "smallcache") {
			opts = append(opts, verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](
				rapid.IntRange(1, 3).Draw(rt, "size"), nil, time.Minute)))
		}

		verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(opts...)

		for round, n := 0, rapid.IntRange(1, 4).Draw(rt, "rounds"); round < n; round++ {
			if round > 0 { // the web changes
				p := web.pages[vk.Pick(rt, "page", resURLs...)]

				if rapid.Bool().Draw(rt, "newbody") {
					p.past = append(p.past, p.body)
					p.body = body()
				} else {
					p.fault = vk.Pick(rt, "fault", "error", "status", "created", "cut", "no body", "empty")
				}
			} else if vk.Coin(rt, "fault0", 3) {
				p := web.pages[vk.Pick(rt, "page", resURLs...)]
				p.fault = vk.Pick(rt, "fault", "error", "status", "created", "cut", "no body", "empty")
			}

			var (
				creds []*verifiable.Credential
				docs  []any
				all   []verifiable.RelatedResource
			)

			want := 2

			for i, k := 0, rapid.IntRange(1, 2).Draw(rt, "creds"); i < k; i++ {
				var list []verifiable.RelatedResource

				for j, m := 0, vk.Size(rt, "resources", 0, 3); j < m; j++ {
					res, w := drawRelated(rt, web)
					want = min(want, w)
					list = append(list, res)
				}

				all = append(all, list...)

				cred, err := verifiable.CreateCredential(verifiable.CredentialContents{
					Context: []string{verifiable.V2ContextURI}, Types: []string{"VerifiableCredential"},
					Issuer: &verifiable.Issuer{ID: "did:ex:aaa"}, Subject: []verifiable.Subject{{ID: "did:ex:s"}},
					RelatedResources: list,
				}, nil)
				if err != nil {
					rt.Fatal(err)
				}

				doc := map[string]any{
					"@context": []any{verifiable.V2ContextURI}, "type": []any{"VerifiableCredential"},
					"issuer": "did:ex:aaa", "credentialSubject": map[string]any{"id": "did:ex:s"},
				}

				if len(list) > 0 {
					doc["relatedResource"] = vk.Norm(list)
				}

				creds, docs = append(creds, cred), append(docs, doc)
			}

			var (
				err  error
				form = vk.Pick(rt, "form", "validator", "validator", "json", "jwt", "presentation", "off", "presentation off")
				gets = web.gets
			)

			check := []verifiable.CredentialOpt{
				verifiable.WithJSONLDDocumentLoader(loader), verifiable.WithDisabledProofCheck(),
				verifiable.WithCredDisableValidation(),
			}

			switch form {
			case "validator":
				err = verifiable.DefaultRelatedResourceValidator.Validate(creds)
			case "json", "jwt", "off":
				for _, d := range docs {
					raw := vk.MustJSON(d)

					if form == "jwt" {
						tok := vk.MakeJWS(map[string]any{"alg": "EdDSA"}, vk.MustJSON(map[string]any{"vc": d}), vk.GetKey(vk.EdDSA, "x"))
						raw = []byte(tok)
					}

					o := check
					if form == "off" {
						o = append(o, verifiable.WithDisabledRelatedResourceCheck())
					}

					_, e := verifiable.ParseCredential(raw, o...)
					err = errors.Join(err, e)
				}
			case "presentation", "presentation off":
				o := []verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(loader), verifiable.WithPresDisabledProofCheck(),
					verifiable.WithDisabledJSONLDChecks()}

				switch {
				case form == "presentation":
					o = append(o, verifiable.WithPresRelatedResourceCheck(true))
				case vk.Coin(rt, "said", 2):
					o = append(o, verifiable.WithPresRelatedResourceCheck(false))
				}

				_, err = verifiable.ParsePresentation(vk.MustJSON(map[string]any{
					"@context": []any{verifiable.V2ContextURI}, "type": "VerifiablePresentation", "holder": "did:ex:h",
					"verifiableCredential": docs,
				}), o...)
			}

			if strings.HasSuffix(form, "off") {
				if err != nil || web.gets != gets {
					rt.Fatalf("with the check off: %v (%d requests)", err, web.gets-gets)
				}

				continue
			}

			if (want == 0 && err == nil) || (want == 2 && err != nil) {
				rt.Fatalf("%s, round %d: related resources %s of %s should be %d: %v", form, round, vk.JS(all), pagesText(web), want, err)
			}

			c.Class("%s want %d accepted=%v resources=%d", form, want, err == nil, min(len(all), 3))

			if len(all) > 0 {
				c.NonTrivial(form, vk.JS(all))
			}
			c.Sample(map[string]any{"form": form, "resources": all})
		}
	})
}

func pagesText(w *resWeb) string {
	var out []string
	for _, n := range resURLs {
		p := w.pages[n]
		out = append(out, fmt.Sprintf("%s: %q %s (%d before)", n, p.body, p.fault, len(p.past)))
	}

	return strings.Join(out, ", ")
}

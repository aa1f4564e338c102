package props

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/did/endpoint"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// webReply is what the scripted network gives for one URL.
type webReply struct {
	code  int
	body  []byte
	err   error // of the request
	cut   int   // bytes served before the connection breaks, -1 = all
	reply func(req *http.Request, body []byte) *webReply
}

// web is a scripted network.
type web map[string]*webReply

type cutReader struct {
	r io.Reader
	n int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if c.n <= 0 {
		return 0, errors.New("connection reset")
	}

	if len(p) > c.n {
		p = p[:c.n]
	}

	n, err := c.r.Read(p)
	c.n -= n

	return n, err
}

func (w web) RoundTrip(req *http.Request) (*http.Response, error) {
	r := w[req.URL.String()]
	if r == nil {
		return nil, errors.New("no such host")
	}

	if r.reply != nil {
		var body []byte
		if req.Body != nil {
			body, _ = io.ReadAll(req.Body)
		}

		r = r.reply(req, body)
	}

	if r.err != nil {
		return nil, r.err
	}

	var body io.Reader = bytes.NewReader(r.body)
	if r.cut >= 0 && r.cut < len(r.body) {
		body = &cutReader{r: body, n: r.cut}
	}

	return &http.Response{
		StatusCode: r.code, Status: http.StatusText(r.code), Header: http.Header{}, Body: io.NopCloser(body),
		Request: req, ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1,
	}, nil
}

// statusEntry is one status entry of a credential with the answer expected for it.
type statusEntry struct {
	entry map[string]any
	want  string // ok, revoked, suspended, error
	class string
}

const (
	slType = "StatusList2021Entry"
	bsType = "BitstringStatusListEntry"
)

func gz(b []byte, level int) []byte {
	var buf bytes.Buffer

	w, err := gzip.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}

	_, _ = w.Write(b)
	_ = w.Close()

	return buf.Bytes()
}

func ungz(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}

	return io.ReadAll(r)
}

// bitOf is the reference: bits are packed eight to a byte, lowest first.
func bitOf(bits []byte, i int) bool { return bits[i>>3]>>(uint(i)&7)&1 == 1 }

// drawBits makes a list.
func drawBits(rt *rapid.T) []byte {
	n := rapid.IntRange(1, 40).Draw(rt, "bytes")

	switch {
	case vk.Coin(rt, "long", 40):
		n = rapid.SampledFrom([]int{8191, 16384, 16385, 70000, 16384, 70000, 300000, 2500000}).Draw(rt, "longBytes")
		bits := make([]byte, n)

		for i := rapid.IntRange(0, 6).Draw(rt, "set"); i > 0; i-- {
			bits[rapid.IntRange(0, n-1).Draw(rt, "at")] = byte(rapid.IntRange(0, 255).Draw(rt, "byte"))
		}

		return bits
	case vk.Coin(rt, "single", 3):
		bits := make([]byte, n)
		i := rapid.IntRange(0, 8*n-1).Draw(rt, "bit")
		bits[i/8] = 1 << (i % 8)

		if vk.Coin(rt, "invert", 2) {
			for j := range bits {
				bits[j] = ^bits[j]
			}
		}

		return bits
	default:
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "bits")
	}
}

// encodeList writes compressed bits as the list of an entry of the given type.
func encodeList(rt *rapid.T, typ string, comp []byte) string {
	if typ == slType {
		return base64.RawURLEncoding.EncodeToString(comp)
	}

	if len(comp) > 100000 {
		return "u" + base64.RawURLEncoding.EncodeToString(comp) // the other encodings take too long
	}

	switch vk.Pick(rt, "base", "u", "u", "u", "f", "F", "m", "M", "U", "z", "b") {
	case "u":
		return "u" + base64.RawURLEncoding.EncodeToString(comp)
	case "f":
		return "f" + hex.EncodeToString(comp)
	case "F":
		return "F" + strings.ToUpper(hex.EncodeToString(comp))
	case "m":
		return "m" + base64.RawStdEncoding.EncodeToString(comp)
	case "M":
		return "M" + base64.StdEncoding.EncodeToString(comp)
	case "U":
		return "U" + base64.URLEncoding.EncodeToString(comp)
	case "z":
		if len(comp) > 600 {
			return "u" + base64.RawURLEncoding.EncodeToString(comp)
		}

		s, _ := multibase.Encode(multibase.Base58BTC, comp)

		return s
	default:
		s, _ := multibase.Encode(multibase.Base32, comp)

		return s
	}
}

// statusList is a published list credential.
func statusListDoc(typ, id, issuer string, v2 bool, purpose any, list any) map[string]any {
	sub := map[string]any{"id": id + "#list", "type": "StatusList2021", "encodedList": list}
	types := []any{"VerifiableCredential", "StatusList2021Credential"}

	if typ == bsType {
		sub["type"] = "BitstringStatusList"
		types[1] = "BitstringStatusListCredential"
	}

	if purpose != nil {
		sub["statusPurpose"] = purpose
	}

	doc := map[string]any{
		"@context": []any{verifiable.V1ContextURI}, "id": id, "type": types, "issuer": issuer,
		"credentialSubject": sub,
	}

	if v2 {
		doc["@context"] = []any{verifiable.V2ContextURI}
		doc["validFrom"] = "2021-04-05T14:27:40Z"
	} else {
		doc["issuanceDate"] = "2021-04-05T14:27:40Z"
	}

	return doc
}

// publish makes what the server of a list serves.
func publish(rt *rapid.T, doc map[string]any) []byte {
	v2 := doc["validFrom"] != nil

	switch vk.Pick(rt, "form", "json", "json", "jwt", "issuerObj", "subjectArray") {
	case "jwt":
		iss := issuerOf(doc)
		claims := map[string]any{"iss": iss, "vc": doc, "jti": doc["id"], "nbf": 1617632860}

		if v2 {
			claims = map[string]any{"iss": iss, "vc": doc, "jti": doc["id"], "nbf": 1617632860}
		}

		return []byte(vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": iss + "#k"},
			vk.MustJSON(claims), vk.GetKey("EdDSA", "list")))
	case "issuerObj":
		doc = vk.CloneMap(doc)
		if s, ok := doc["issuer"].(string); ok {
			doc["issuer"] = map[string]any{"id": s, "name": "issuer of lists"}
		}
	case "subjectArray":
		doc = vk.CloneMap(doc)
		if m, ok := doc["credentialSubject"].(map[string]any); ok {
			doc["credentialSubject"] = []any{m}
		}
	}

	return vk.MustJSON(doc)
}

func issuerOf(doc map[string]any) string {
	switch x := doc["issuer"].(type) {
	case string:
		return x
	case map[string]any:
		s, _ := x["id"].(string)

		return s
	}

	return ""
}

const statusIssuer = "did:ex:issuer"

// statusWorld is the network and the DIDs of a status case.
type statusWorld struct {
	net   web
	w     *vk.World
	n     int
	token string // what the hosts of the lists want as bearer token
	uri   string // a damaged list URI, for faults of the URI
}

// guardedNet serves only requests that carry the token the hosts want.
type guardedNet struct {
	net   web
	token string
}

func (g *guardedNet) RoundTrip(req *http.Request) (*http.Response, error) {
	want := []string{"Bearer " + g.token}
	if g.token == "" {
		want = nil
	}

	if got := req.Header.Values("Authorization"); !slices.Equal(got, want) {
		return (web{req.URL.String(): &webReply{code: http.StatusUnauthorized, cut: -1}}).RoundTrip(req)
	}

	return g.net.RoundTrip(req)
}

func newStatusWorld() *statusWorld { return &statusWorld{net: web{}, w: vk.NewWorld()} }

func (s *statusWorld) client() *status.Client {
	return &status.Client{
		ValidatorGetter: validator.GetValidator,
		Resolver:        resolver.NewResolver(&http.Client{Transport: &guardedNet{s.net, s.token}}, s.w, s.token),
	}
}

// place serves body under a new URL and returns the URL; with hub, it is a DID URL answered by an identity hub.
// The returned function breaks the delivery in one of several ways and names it.
func (s *statusWorld) place(rt *rapid.T, body []byte) (string, func() string) {
	s.n++

	if !vk.Coin(rt, "viaDID", 4) {
		u := fmt.Sprintf("https://lists.example/%d", s.n)
		r := &webReply{code: 200, body: body, cut: -1}
		s.net[u] = r

		return u, func() string {
			f := vk.Pick(rt, "fault", "down", "code", "cut", "truncated", "garbage", "empty", "otherHost")

			switch f {
			case "down":
				r.err = errors.New("connection refused")
			case "code":
				r.code = vk.Pick(rt, "code", 201, 202, 204, 400, 401, 403, 404, 410, 500, 503)
			case "cut":
				r.cut = rapid.IntRange(0, len(body)-1).Draw(rt, "cut")
			case "truncated":
				// bytes lost in front of the last one always leave an incomplete document or token
				r.body = body[:rapid.IntRange(0, len(body)/2).Draw(rt, "kept")]
			case "garbage":
				r.body = []byte(vk.Pick(rt, "junk", "null", "[]", "{}", "<html></html>", `"x"`, "0", "\x00", `{"id":"x"}`))
			case "empty":
				r.body = nil
			case "otherHost":
				delete(s.net, u)
			}

			return "http-" + f
		}
	}

	hub := fmt.Sprintf("did:ex:hub%d", s.n)
	ep := fmt.Sprintf("https://hub.example/%d", s.n)
	obj := fmt.Sprintf("object-%d", s.n)
	doc := s.w.AddDID(hub)

	var e endpoint.Endpoint

	switch vk.Pick(rt, "endpoint", "v1", "v2", "list", "map") {
	case "v1":
		e = endpoint.NewDIDCommV1Endpoint(ep)
	case "v2":
		e = endpoint.NewDIDCommV2Endpoint([]endpoint.DIDCommV2Endpoint{{URI: ep}})
	case "list":
		e = endpoint.NewDIDCoreEndpoint([]string{ep})
	default:
		e = endpoint.NewDIDCoreEndpoint(map[string]any{"origins": []string{ep}})
	}

	doc.Service = []did.Service{{ID: hub + "#hub", Type: "IdentityHub", ServiceEndpoint: e}}
	if vk.Coin(rt, "otherService", 2) {
		doc.Service = append([]did.Service{{
			ID: hub + "#other", Type: "LinkedDomains",
			ServiceEndpoint: endpoint.NewDIDCommV1Endpoint("https://elsewhere.example/"),
		}}, doc.Service...)
	}

	query := []map[string]any{}
	if vk.Coin(rt, "otherQuery", 2) {
		query = append(query, map[string]any{"method": "OtherQuery", "objectId": "other"})
	}

	query = append(query, map[string]any{"method": "CollectionsQuery", "objectId": obj})

	fault := ""
	decoy := vk.Coin(rt, "decoyReply", 2)

	s.net[ep] = &webReply{reply: func(req *http.Request, reqBody []byte) *webReply {
		var q struct {
			Target   string
			Messages []struct{ Descriptor map[string]any }
		}

		if req.Method != http.MethodPost || json.Unmarshal(reqBody, &q) != nil || q.Target != hub ||
			len(q.Messages) != 1 || q.Messages[0].Descriptor["objectId"] != obj {
			return &webReply{code: 400, cut: -1, body: []byte("bad request")}
		}

		entry := map[string]any{
			"descriptor": map[string]any{"method": "CollectionsWrite", "objectId": obj},
			"data":       base64.StdEncoding.EncodeToString(body),
		}
		entries := []any{entry}

		if decoy {
			entries = append([]any{map[string]any{
				"descriptor": map[string]any{"objectId": "decoy"}, "data": "bm90aGluZw==",
			}}, entries...)
		}

		msg := map[string]any{"messageId": "m", "status": map[string]any{"code": 200}, "entries": entries}
		res := map[string]any{"requestId": "r", "status": map[string]any{"code": 200}, "replies": []any{msg}}
		r := &webReply{code: 200, cut: -1}

		switch fault {
		case "hub-down":
			r.err = errors.New("connection refused")
		case "hub-code":
			r.code = 500
		case "hub-status":
			res["status"] = map[string]any{"code": 403, "message": "no"}
		case "hub-msgStatus":
			msg["status"] = map[string]any{"code": 404, "message": "no"}
		case "hub-otherObject":
			entry["descriptor"] = map[string]any{"objectId": "not-" + obj}
		case "hub-noObjectID":
			entry["descriptor"] = map[string]any{"method": "CollectionsWrite"}
		case "hub-badData":
			entry["data"] = "!!" + base64.StdEncoding.EncodeToString(body)
		case "hub-noData":
			delete(entry, "data")
		case "hub-noReplies":
			delete(res, "replies")
		}

		r.body = vk.MustJSON(res)
		if fault == "hub-cut" {
			r.cut = len(r.body) / 2
		}

		return r
	}}

	u := hub + "?service=IdentityHub&queries=" + url.QueryEscape(base64.StdEncoding.EncodeToString(vk.MustJSON(query)))

	return u, func() string {
		fault = vk.Pick(rt, "fault", "hub-down", "hub-code", "hub-status", "hub-msgStatus", "hub-otherObject",
			"hub-noObjectID", "hub-badData", "hub-noData", "hub-noReplies", "hub-cut", "hub-noService", "hub-unknownDID",
			"hub-otherService", "hub-uri")

		switch fault {
		case "hub-uri":
			enc := base64.StdEncoding.EncodeToString
			s.uri = hub + vk.Pick(rt, "uri", "", "?", "?service=IdentityHub", "?queries=", "?service=IdentityHub&query="+url.QueryEscape(enc(vk.MustJSON(query))),
				"?queries=%zz", "?queries=!!!", "?queries="+url.QueryEscape(enc([]byte("no json"))), "?queries="+url.QueryEscape(enc([]byte(`{"a":1}`))),
				"?queries="+url.QueryEscape(enc([]byte("[]"))), "?queries="+url.QueryEscape(enc([]byte(`[{"method":"OtherQuery","objectId":"`+obj+`"}]`))),
				"?queries="+url.QueryEscape(enc([]byte(`[{"method":"CollectionsQuery","objectId":"x`+obj+`"}]`))),
				"?queries="+url.QueryEscape(enc([]byte(`[{"method":"CollectionsQuery"}]`))))
		case "hub-otherService":
			doc.Service[len(doc.Service)-1].Type = vk.Pick(rt, "serviceType", "identityhub", "IdentityHubs", "", "LinkedDomains")
		case "hub-noService":
			doc.Service = nil
		case "hub-unknownDID":
			s.w.Remove(hub)
		}

		return fault
	}
}

// entry draws a status entry, its published list and the expected answer.
func (s *statusWorld) entry(rt *rapid.T) statusEntry {
	typ := vk.Pick(rt, "type", slType, bsType)
	purpose := vk.Pick(rt, "purpose", "revocation", "revocation", "suspension")
	bits := drawBits(rt)
	size := 1

	e := map[string]any{
		"id": fmt.Sprintf("https://status.example/%d", s.n), "type": typ, "statusPurpose": purpose,
	}

	if typ == bsType && vk.Coin(rt, "sized", 4) {
		size = rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(rt, "size")
		e["statusSize"] = size

		if size > 1 {
			msgs := []any{}
			for i := 1; i < 1<<size; i++ {
				msgs = append(msgs, map[string]any{"status": fmt.Sprintf("0x%x", i), "message": "m"})
			}

			e["statusMessage"] = msgs
		}
	}

	last := 8*len(bits)/size - 1
	idx := rapid.OneOf(rapid.IntRange(0, last), rapid.SampledFrom([]int{0, min(7, last), min(8, last), last})).Draw(rt, "index")

	set := false
	for i := idx * size; i < (idx+1)*size; i++ {
		set = set || bitOf(bits, i)
	}

	e["statusListIndex"] = strconv.Itoa(idx)

	level := rapid.SampledFrom([]int{-2, 0, 1, -1, 9}).Draw(rt, "level")
	if len(bits) > 1000000 {
		level = 9
	}

	comp := gz(bits, level)
	list := encodeList(rt, typ, comp)

	var listPurpose any = purpose

	switch vk.Pick(rt, "listPurpose", "same", "same", "array", "none") {
	case "array":
		listPurpose = []any{vk.Pick(rt, "other", "refresh", "message"), purpose}
	case "none":
		listPurpose = nil
	}

	doc := statusListDoc(typ, fmt.Sprintf("https://lists.example/id/%d", s.n), statusIssuer,
		vk.Coin(rt, "v2list", 2), listPurpose, list)
	sub := doc["credentialSubject"].(map[string]any)

	out := statusEntry{entry: e, want: "ok", class: "clean"}
	if set {
		out.want = map[string]string{"revocation": "revoked", "suspension": "suspended"}[purpose]
	}

	fail := func(class string) {
		out.want, out.class = "error", class
	}

	deliveryFault := false
	missing, retyped := "", ""

	if vk.Coin(rt, "faulty", 2) {
		f := vk.Pick(rt, "kind", "delivery", "delivery", "issuer", "noIssuer", "noSubject", "noList", "listType",
			"listCut", "listChar", "listPad", "listForm", "gzCut", "gzFlip", "notGz", "range", "range", "negative", "indexText",
			"indexType", "noField", "fieldType", "type", "listPurpose", "purpose", "entrySize", "messages")
		fail(f)

		switch f {
		case "delivery":
			deliveryFault = true
		case "issuer":
			doc["issuer"] = vk.Pick(rt, "other", "did:ex:other", statusIssuer+"2", "did:ex:Issuer", statusIssuer+"#k", "",
				vk.Near(rt, "near issuer", statusIssuer))
		case "noIssuer":
			delete(doc, "issuer")
		case "noSubject":
			switch vk.Pick(rt, "how", "absent", "empty", "string", "null") {
			case "absent":
				delete(doc, "credentialSubject")
			case "empty":
				doc["credentialSubject"] = []any{}
			case "string":
				doc["credentialSubject"] = "https://lists.example/#list"
			case "null":
				doc["credentialSubject"] = nil
			}
		case "noList":
			delete(sub, "encodedList")
		case "listType":
			sub["encodedList"] = vk.Pick[any](rt, "v", 5, nil, true, []any{list}, map[string]any{"v": list}, "")
		case "listCut":
			// at least one whole byte of the stream is lost
			sub["encodedList"] = list[:rapid.IntRange(0, len(list)-3).Draw(rt, "cut")]

			if strings.HasPrefix(list, "z") {
				sub["encodedList"] = ""
			}
		case "listChar":
			i := rapid.IntRange(0, len(list)).Draw(rt, "at")
			sub["encodedList"] = list[:i] + vk.Pick(rt, "ch", "!", "%", "\x01", "é", ".", "~") + list[i:]
		case "listPad":
			if typ == slType {
				sub["encodedList"] = list + "=="
			} else {
				sub["encodedList"] = "u" + base64.RawURLEncoding.EncodeToString(comp) + "=="
			}
		case "listForm":
			// the form of the other kind of list
			if typ == slType {
				sub["encodedList"] = "u" + list
			} else {
				sub["encodedList"] = base64.RawURLEncoding.EncodeToString(comp)
			}
		case "gzCut":
			cut := comp[:rapid.IntRange(0, len(comp)-1).Draw(rt, "cut")]
			sub["encodedList"] = encodeList(rt, typ, cut)
		case "gzFlip":
			b := bytes.Clone(comp)
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			sub["encodedList"] = encodeList(rt, typ, b)

			if got, err := ungz(b); err == nil && bytes.Equal(got, bits) {
				out.want, out.class = "ok", "gzHeader" // a bit of the header that carries nothing

				if set {
					out.want = map[string]string{"revocation": "revoked", "suspension": "suspended"}[purpose]
				}
			} else if err == nil {
				rt.Skip("checksum collision")
			}
		case "notGz":
			sub["encodedList"] = encodeList(rt, typ, bits)

			if _, err := ungz(bits); err == nil {
				rt.Skip("bits are a gzip stream")
			}
		case "range":
			n := 8 * len(bits) / size
			e["statusListIndex"] = strconv.Itoa(n + rapid.SampledFrom([]int{0, 1, 7, 8, 1000, 1 << 40}).Draw(rt, "over"))

			if vk.Coin(rt, "huge", 4) {
				e["statusListIndex"] = vk.Pick(rt, "hugeIndex", "9223372036854775807", "4611686018427387904", "2305843009213693952",
					"9223372036854775808", "18446744073709551616", "99999999999999999999999999")
			}
		case "negative":
			e["statusListIndex"] = strconv.Itoa(-rapid.IntRange(1, 20).Draw(rt, "neg"))
		case "indexText":
			e["statusListIndex"] = vk.Pick(rt, "text", "", " ", "x", "1.0", "1e1", "0x1", "1 ", " 1", "one", "--1", "1,0", "٣", "null", "NaN")
		case "indexType":
			e["statusListIndex"] = vk.Pick[any](rt, "v", 0, idx, 1.5, true, []any{"0"}, map[string]any{})
		case "noField":
			missing = vk.Pick(rt, "field", "statusListIndex", "statusListCredential", "statusPurpose")
		case "fieldType":
			retyped = vk.Pick(rt, "field", "statusListCredential", "statusPurpose")
		case "type":
			e["type"] = vk.Pick(rt, "t", "RevocationList2021Status", "StatusList2021", "statuslist2021entry", "",
				"BitstringStatusList", "Other", slType+"X", vk.Near(rt, "near type", typ))
		case "listPurpose":
			sub["statusPurpose"] = vk.Pick[any](rt, "lp",
				map[string]string{"revocation": "suspension", "suspension": "revocation"}[purpose],
				[]any{"refresh"}, []any{}, "message", "", 5, strings.ToUpper(purpose), vk.Near(rt, "near purpose", purpose), map[string]any{"x": purpose})
		case "purpose":
			e["statusPurpose"] = vk.Pick(rt, "p", "message", "refresh", "Revocation", "x")
			sub["statusPurpose"] = e["statusPurpose"]

			if !set { // nothing is set for that purpose: either answer says so
				out.want = "ok|error"
			}
		case "entrySize":
			if typ != bsType {
				rt.Skip("no sizes")
			}

			e["statusSize"] = vk.Pick[any](rt, "s", 0, -1, 1.5, "1", 2, 64, 1e30, true)
			delete(e, "statusMessage")

			if rapid.Bool().Draw(rt, "no messages") {
				e["statusMessage"] = []any{} // as many as a size of 0 has values
			}
		case "messages":
			// a status of several bits needs a message for each of its values
			if typ != bsType {
				rt.Skip("no sizes")
			}

			size = rapid.SampledFrom([]int{2, 3, 4, 5}).Draw(rt, "wideSize")
			e["statusSize"] = size
			e["statusListIndex"] = "0"

			n := rapid.SampledFrom([]int{0, 1, 2, 1<<size - 2, 1<<size + 1, 1 << (size + 1)}).Draw(rt, "messages")

			msgs := []any{}
			for i := 0; i < n; i++ {
				msgs = append(msgs, map[string]any{"status": fmt.Sprintf("0x%x", i), "message": "m"})
			}

			e["statusMessage"] = msgs
		}
	}

	u, breakIt := s.place(rt, publish(rt, doc))
	if deliveryFault {
		s.uri = ""
		out.class = breakIt()

		if s.uri != "" {
			u = s.uri
		}
	}

	e["statusListCredential"] = u
	delete(e, missing)

	if retyped != "" {
		e[retyped] = vk.Pick[any](rt, "v", 5, true, []any{e[retyped]}, map[string]any{"id": e[retyped]})
	}

	return out
}

func statusCredential(rt *rapid.T, entries []statusEntry) *verifiable.Credential {
	v2 := vk.Coin(rt, "v2", 2)
	doc := map[string]any{
		"@context": []any{verifiable.V1ContextURI}, "id": "urn:cred", "type": []any{"VerifiableCredential"},
		"issuer":       vk.Pick[any](rt, "issuer", statusIssuer, map[string]any{"id": statusIssuer, "name": "n"}),
		"issuanceDate": "2021-04-05T14:27:40Z", "credentialSubject": map[string]any{"id": "did:ex:s"},
	}

	if v2 {
		doc["@context"] = []any{verifiable.V2ContextURI}
		doc["validFrom"] = doc["issuanceDate"]
		delete(doc, "issuanceDate")
	}

	list := []any{}
	for _, e := range entries {
		list = append(list, e.entry)
	}

	doc["credentialStatus"] = list
	if len(list) == 1 && vk.Coin(rt, "single", 2) {
		doc["credentialStatus"] = list[0]
	}

	cred, err := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck(),
		verifiable.WithCredDisableValidation())...)
	if err != nil {
		rt.Fatalf("credential with status %s is not parsed: %v", vk.JS(doc), err)
	}

	return cred
}

func statusAnswer(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, status.ErrRevoked) && errors.Is(err, status.ErrSuspended):
		return "both"
	case errors.Is(err, status.ErrRevoked):
		return "revoked"
	case errors.Is(err, status.ErrSuspended):
		return "suspended"
	default:
		return "error"
	}
}

func TestC18_Entries(t *testing.T) {
	vk.Check(t, "a status entry is answered from its list, or its list is damaged", 6000, 150000, func(rt *rapid.T, c *vk.Case) {
		s := newStatusWorld()
		s.token = vk.Pick(rt, "token", "", "tok", "a.b-c==")

		n := 1
		if vk.Coin(rt, "several", 4) {
			n = vk.Size(rt, "n", 2, 3)
		}

		var entries []statusEntry
		for range n {
			entries = append(entries, s.entry(rt))
		}

		cred := statusCredential(rt, entries)
		err := s.client().VerifyStatus(cred)
		got := statusAnswer(err)

		allowed := map[string]bool{}
		clean := true

		for _, e := range entries {
			c.Class("%s=%s", e.class, e.want)

			for _, w := range strings.Split(e.want, "|") {
				if w != "ok" {
					allowed[w] = true
				}
			}

			clean = clean && strings.HasPrefix(e.want, "ok")
		}

		if clean {
			allowed["ok"] = true
		}

		c.NonTrivial(got, vk.JS(entries[0].entry), len(entries))
		c.Sample(map[string]any{"class": entries[0].class, "entry": entries[0].entry, "answer": got})

		if !allowed[got] {
			rt.Fatalf("%v: status answer %q (%v), expected one of %v\nentries %s", c.Classes(), got, err, vk.SortedKeys(anyOf(allowed)),
				vk.JS(cred.ToRawJSON()["credentialStatus"]))
		}
	})
}

func anyOf(m map[string]bool) map[string]any {
	out := map[string]any{}
	for k := range m {
		out[k] = true
	}

	return out
}

// TestC18_EveryIndex reads every index of lists, so that every bit of a credential's list answers for its index only.
func TestC18_EveryIndex(t *testing.T) {
	vk.Check(t, "all indices of a list, each answered by its own bit", 150, 3000, func(rt *rapid.T, c *vk.Case) {
		s := newStatusWorld()
		typ := vk.Pick(rt, "type", slType, bsType)
		purpose := vk.Pick(rt, "purpose", "revocation", "suspension")
		bits := rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(rt, "bits")
		doc := statusListDoc(typ, "https://lists.example/all", statusIssuer, false, purpose, encodeList(rt, typ, gz(bits, -1)))
		s.net["https://lists.example/all"] = &webReply{code: 200, cut: -1, body: publish(rt, doc)}
		cl := s.client()

		c.NonTrivial(bits, typ)
		c.Class("%s %s", typ, purpose)

		for i := -2; i < 8*len(bits)+10; i++ {
			cred := statusCredential(rt, []statusEntry{{entry: map[string]any{
				"id": "https://status.example/i", "type": typ, "statusPurpose": purpose, "statusListIndex": strconv.Itoa(i),
				"statusListCredential": "https://lists.example/all",
			}}})

			want := "error"
			if i >= 0 && i < 8*len(bits) {
				want = "ok"
				if bits[i/8]&(1<<(i%8)) != 0 {
					want = map[string]string{"revocation": "revoked", "suspension": "suspended"}[purpose]
				}
			}

			if err := cl.VerifyStatus(cred); statusAnswer(err) != want {
				rt.Fatalf("index %d of %x: %q (%v), expected %q", i, bits, statusAnswer(err), err, want)
			}
		}
	})
}

// TestC18_Histories keeps one client while the lists at some look-alike URLs change, vanish and return: every answer
// is that of the list served at that time.
func TestC18_Histories(t *testing.T) {
	vk.Check(t, "a list whose answer changed was asked again", 500, 15000, func(rt *rapid.T, c *vk.Case) {
		s := newStatusWorld()
		cl := s.client()
		urls := rapid.Permutation([]string{
			"https://lists.example/1", "https://lists.example/1?v=2", "https://lists.example/1?v=3", "https://lists.example/1/",
			"https://lists.example/ONE", "https://lists.example/one", "https://lists2.example/1", "http://lists.example/1",
			"https://lists.example:8443/1",
		}).Draw(rt, "urls")[:rapid.IntRange(1, 4).Draw(rt, "nurls")]
		docs := map[string]map[string]any{}
		lists := map[string][]byte{}
		last := map[string]string{}
		changed := false

		for step := rapid.IntRange(3, 10).Draw(rt, "steps"); step > 0; step-- {
			u := rapid.SampledFrom(urls).Draw(rt, "url")

			if lists[u] == nil || vk.Coin(rt, "republish", 2) {
				bits := rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(rt, "bits")
				if old := lists[u]; old != nil && vk.Coin(rt, "oneBit", 2) {
					bits = slices.Clone(old)
					i := rapid.IntRange(0, 8*len(bits)-1).Draw(rt, "flip")
					bits[i/8] ^= 1 << (i % 8)
				}

				typ := vk.Pick(rt, "type", slType, bsType)
				purpose := vk.Pick(rt, "purpose", "revocation", "suspension")
				lists[u] = bits
				docs[u] = statusListDoc(typ, u, statusIssuer, false, purpose, encodeList(rt, typ, gz(bits, -1)))
				s.net[u] = &webReply{code: 200, cut: -1, body: publish(rt, docs[u])}
			}

			s.net[u].code = 200
			if vk.Coin(rt, "outage", 6) {
				s.net[u].code = vk.Pick(rt, "code", 404, 503, 500)
			}

			typ, purpose := docs[u]["credentialSubject"].(map[string]any)["type"], docs[u]["credentialSubject"].(map[string]any)["statusPurpose"].(string)

			entryType := slType
			if typ == "BitstringStatusList" {
				entryType = bsType
			}

			i := rapid.IntRange(0, 8*len(lists[u])-1).Draw(rt, "index")
			cred := statusCredential(rt, []statusEntry{{entry: map[string]any{
				"id": "https://status.example/i", "type": entryType, "statusPurpose": purpose, "statusListIndex": strconv.Itoa(i),
				"statusListCredential": u,
			}}})

			want := "ok"

			switch {
			case s.net[u].code != 200:
				want = "error"
			case lists[u][i/8]&(1<<(i%8)) != 0:
				want = map[string]string{"revocation": "revoked", "suspension": "suspended"}[purpose]
			}

			if k := fmt.Sprint(u, i); last[k] == "" || last[k] == want {
				last[k] = want
			} else {
				changed = true
			}

			if w := last[u]; w != "" && w != want {
				changed = true
			}

			last[u] = want

			c.Class("%s", want)

			if err := cl.VerifyStatus(cred); statusAnswer(err) != want {
				rt.Fatalf("index %d of %x at %s: %q (%v), expected %q", i, lists[u], u, statusAnswer(err), err, want)
			}
		}

		if changed {
			c.NonTrivial(vk.JS(docs), last)
		}

		c.Sample(map[string]any{"lists": docs})
	})
}

// TestC18_NoStatus has credentials without status.
func TestC18_NoStatus(t *testing.T) {
	vk.Enum(t, "a credential without status entries", func(t *testing.T, c func() *vk.Case) {
		for _, st := range []any{nil, []any{}} {
			cs := c()
			cs.NonTrivial(vk.JS(st))

			doc := map[string]any{
				"@context": []any{verifiable.V1ContextURI}, "type": []any{"VerifiableCredential"}, "issuer": statusIssuer,
				"issuanceDate": "2021-04-05T14:27:40Z", "credentialSubject": map[string]any{"id": "did:ex:s"},
				"credentialStatus": st,
			}

			cred, err := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck(),
				verifiable.WithCredDisableValidation())...)
			if err != nil {
				continue
			}

			if a := statusAnswer(newStatusWorld().client().VerifyStatus(cred)); a != "error" {
				t.Fatalf("the status of a credential without status is %q", a)
			}
		}
	})
}

func TestC18_Findings(t *testing.T) {
	vk.Known(t, "status-list-proof-unchecked", func() bool {
		s := newStatusWorld()
		doc := statusListDoc(slType, "https://lists.example/forged", statusIssuer, false, "revocation",
			base64.RawURLEncoding.EncodeToString(gz(make([]byte, 16), -1)))
		tok := vk.MakeJWS(map[string]any{"alg": "EdDSA", "typ": "JWT", "kid": statusIssuer + "#k"},
			vk.MustJSON(map[string]any{"iss": statusIssuer, "vc": doc, "nbf": 1617632860}), vk.GetKey("EdDSA", "mallory"))
		s.w.AddDID(statusIssuer, vk.VM{Fragment: "k", Key: vk.GetKey("EdDSA", "list")})
		s.net["https://lists.example/forged"] = &webReply{code: 200, cut: -1, body: []byte(tok)}

		cred, err := verifiable.CreateCredential(verifiable.CredentialContents{
			Context: []string{verifiable.V1ContextURI}, Types: []string{"VerifiableCredential"},
			Issuer: &verifiable.Issuer{ID: statusIssuer},
			Status: []*verifiable.TypedID{{
				ID: "x", Type: slType, CustomFields: map[string]any{
					"statusPurpose": "revocation", "statusListIndex": "3", "statusListCredential": "https://lists.example/forged",
				},
			}},
		}, nil)
		if err != nil {
			return false
		}

		return s.client().VerifyStatus(cred) == nil
	})
}

package props

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// survives runs f, which must neither panic nor take more than a minute. f must not draw.
func survives(rt interface{ Fatalf(string, ...any) }, what string, input any, f func()) {
	type end struct {
		r     any
		stack []byte
	}

	// what crashes the whole process leaves its input behind
	if dir := os.Getenv("TMPDIR"); dir != "" && os.Getenv("VERIF_STATS") != "" {
		_ = os.WriteFile(filepath.Join(dir, "last-input"), []byte(what+"\n"+showInput(input)), 0o600)
	}

	done := make(chan *end, 1)

	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- &end{r, debug.Stack()}
			} else {
				done <- nil
			}
		}()

		f()
	}()

	select {
	case e := <-done:
		if e != nil {
			rt.Fatalf("%s panics: %v\ninput %s\n%s", what, e.r, showInput(input), trace(e.stack))
		}
	case <-time.After(time.Minute):
		buf := make([]byte, 1<<16)
		rt.Fatalf("%s takes more than a minute\ninput %s\n%s", what, showInput(input), buf[:runtime.Stack(buf, true)])
	}
}

func showInput(v any) string {
	var s string

	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%q", x)
	default:
		s = vk.JS(v)
	}

	if len(s) > 6000 {
		s = s[:6000] + "..."
	}

	return s
}

// trace is the interesting part of a stack.
func trace(stack []byte) string {
	var out []string

	lines := strings.Split(string(stack), "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "/repo/") || strings.Contains(lines[i+1], "/pkg/mod/") {
			out = append(out, strings.TrimSpace(lines[i+1]))
		}
	}

	return strings.Join(out[:min(len(out), 12)], "\n")
}

// countNodes counts the values in a tree of JSON or CBOR values.
func countNodes(v any) int {
	n := 1

	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			n += countNodes(e)
		}
	case map[any]any:
		for _, e := range x {
			n += countNodes(e)
		}
	case []any:
		for _, e := range x {
			n += countNodes(e)
		}
	}

	return n
}

func anyKeys(m map[any]any) []any {
	out := make([]any, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	sort.Slice(out, func(i, j int) bool { return fmt.Sprintf("%T%v", out[i], out[i]) < fmt.Sprintf("%T%v", out[j], out[j]) })

	return out
}

// atNode gives v with its at'th value (counted from the root) changed by f, which can also have it removed.
func atNode(v any, at *int, f func(any) (any, bool)) (any, bool) {
	if *at == 0 {
		*at = -1

		return f(v)
	}

	*at--

	switch x := v.(type) {
	case map[string]any:
		out := make(map[string]any, len(x))

		for _, k := range vk.SortedKeys(x) {
			e, keep := x[k], true
			if *at >= 0 {
				e, keep = atNode(e, at, f)
			}

			if keep {
				out[k] = e
			}
		}

		return out, true
	case map[any]any:
		out := make(map[any]any, len(x))

		for _, k := range anyKeys(x) {
			e, keep := x[k], true
			if *at >= 0 {
				e, keep = atNode(e, at, f)
			}

			if keep {
				out[k] = e
			}
		}

		return out, true
	case []any:
		out := make([]any, 0, len(x))

		for _, e := range x {
			keep := true
			if *at >= 0 {
				e, keep = atNode(e, at, f)
			}

			if keep {
				out = append(out, e)
			}
		}

		return out, true
	default:
		return v, true
	}
}

func nodeAt(v any, at int) (out any) {
	_, _ = atNode(v, &at, func(x any) (any, bool) { out = x; return x, true })

	return out
}

var hostileNames = []string{
	"", "@id", "@type", "@value", "@graph", "@reverse", "@index", "@list", "@set", "@nest", "@included", "@language", "@context", "@json", "@none",
	"_sd", "...", "_sd_alg", "cnf", "jwk", "proof", "id", "type", "holder", "verifiableCredential", "vc", "vp", "iss", "sub", "aud", "exp", "nbf", "iat",
	"jti", "credentialStatus", "credentialSchema", "credentialSubject", "validFrom", "validUntil", "issuanceDate", "expirationDate", "issuer", "evidence",
	"refreshService", "termsOfUse", "relatedResource", "crit", "b64", "alg", "kid", "typ", "jws", "proofValue", "verificationMethod", "created", "nonce",
	"cryptosuite", "proofPurpose", "domain", "challenge", "expires", "encodedList", "statusListIndex", "statusPurpose", "statusSize", "path", "filter",
	"fields", "constraints", "path_nested", "format", "descriptor_map", "presentation_submission", "from", "from_nested", "group", "rule", "count", "$ref", "a.b", "~",
}

var hostileTexts = []string{
	"", " ", "a", "\x00", "é", "did:", "did:ex:", "did:ex:aaa", "did:ex:aaa#", "#", "#k", "://", "http://", "http://[", "%zz", "https://lists.example/none", "~", "~~", ".", "..", "...", "a.b.c",
	"e30.e30.", "e30.e30.e30", "eyJhbGciOiJub25lIn0.e30.", "data:", "data:,", "data:application/vc-ld+jwt,", "data:application/vc-ld+jwt,e30.e30.e30", "data:;base64,", "data:application/vp-ld+jwt,x",
	"data:application/vc-ld+cose,00", "data:application/vc-ld+sd-jwt,a~b", "W10", "W10=", "bnVsbA", "e30", "H4sIAAAAAAAA_wMAAAAAAAAAAAA", "uH4sIAAAAAAAA_wMAAAAAAAAAAAA",
	"sha-256", "sha-1", "SHA-512", "md5", "{}", "[]", "null", "true", "0", "-1", "1e400", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "2020-01-01T00:00:00Z", "9999-12-31T23:59:59Z",
	"0000-00-00T00:00:00Z", "2020-01-01", "z", "z1", "u", "m", "f", "f0", "$", "$.", "$..", "$..*", "$.a[", "$.a[0:", "$[?(@.a)]", "$.vc.credentialSubject", "$.verifiableCredential[99]", "$[-1]", "@.a", "$$", "all", "pick",
	"JsonWebSignature2020", "BbsBlsSignature2020", "BbsBlsSignatureProof2020", "Ed25519Signature2020", "Ed25519Signature2018", "DataIntegrityProof", "eddsa-rdfc-2022", "ecdsa-rdfc-2019", "assertionMethod",
	"VerifiableCredential", "VerifiablePresentation", "EnvelopedVerifiableCredential", "EnvelopedVerifiablePresentation", "StatusList2021Entry", "BitstringStatusListEntry", "BitstringStatusListMessage",
	"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/ns/credentials/v2", "JWT", "vc+sd-jwt", "none", "EdDSA", "ES256", "ES256K", "(", "[", "a{1001}", "(?=a)", "\\",
}

// hostile draws a value to put in the place of another one in doc.
func hostile(rt *rapid.T, doc any, inCBOR bool) any {
	n := 19
	if inCBOR {
		n = 27
	}

	switch k := rapid.IntRange(0, n).Draw(rt, "hostile"); k {
	case 0, 1:
		return nil
	case 2:
		return rapid.Bool().Draw(rt, "b")
	case 3:
		return vk.Pick[any](rt, "num", 0.0, -1.0, 1.0, 1.5, 3.0, 1e9, 1e18, 1e300, -1e300, 9007199254740993.0, 4294967296.0)
	case 4, 5, 6, 7:
		return vk.Pick(rt, "text", hostileTexts...)
	case 8, 9:
		return []any{}
	case 10, 11:
		return map[string]any{}
	case 12:
		return vk.Pick[any](rt, "nest", []any{[]any{}}, []any{nil}, []any{map[string]any{}}, map[string]any{"": nil}, map[string]any{"id": nil},
			map[string]any{"id": []any{}}, map[string]any{"id": "x"}, map[string]any{"type": nil}, map[string]any{"@value": nil}, []any{"x", nil}, []any{1.0, "x"}, []any{[]any{[]any{[]any{}}}})
	case 13:
		return strings.Repeat(vk.Pick(rt, "piece", "a", "\x00", "~", ".", "[", "9", "é"), vk.Pick(rt, "len", 10, 255, 256, 5000))
	case 14:
		var v any = vk.Pick[any](rt, "core", nil, "x", 1.0, []any{}, map[string]any{})
		inArray := rapid.Bool().Draw(rt, "arrays")

		for i := vk.Pick(rt, "depth", 2, 10, 120); i > 0; i-- {
			if inArray {
				v = []any{v}
			} else {
				v = map[string]any{vk.Pick(rt, "level", "a", "id", "_sd", "@graph"): v}
			}
		}

		return v
	case 15:
		return map[string]any{vk.Pick(rt, "name", hostileNames...): vk.Pick[any](rt, "val", nil, "x", 1.0, []any{}, map[string]any{}, true, []any{"x", 1.0})}
	case 16:
		return vk.Str().Draw(rt, "str")
	case 20:
		return rapid.SampledFrom([]any{math.NaN(), math.Inf(1), math.Inf(-1), uint64(math.MaxUint64), int64(math.MinInt64), float32(1.5)}).Draw(rt, "cbor num")
	case 21:
		return cbor.Tag{Number: rapid.SampledFrom([]uint64{0, 1, 2, 3, 18, 24, 32, 100, 55799}).Draw(rt, "tag"),
			Content: vk.Pick[any](rt, "content", "x", 1.0, int64(-1), []byte{}, []byte{1, 2}, nil, []any{}, "2020-01-01T00:00:00Z")}
	case 22:
		return map[any]any{int64(1): "a", "1": "b", true: "c"}
	case 23:
		return []byte(vk.Str().Draw(rt, "bytes"))
	case 24:
		return cbor.RawMessage(vk.Pick(rt, "raw", "\xf7", "\xf0", "\xf8\xff", "\x9f\xff", "\xbf\xff", "\xa1\x40\x01", "\xa1\x80\x01", "\xa1\xa0\x01", "\xa2\x01\x01\x01\x02", "\x7f\x61a\xff", "\xc2\x49\x01\x00\x00\x00\x00\x00\x00\x00\x00", "\xa1\xf6\x01", "\xf9\x7e\x00"))
	case 25:
		return map[any]any{int64(rapid.IntRange(-3, 9).Draw(rt, "key")): vk.Pick[any](rt, "under", nil, "x", int64(1), []byte{1})}
	case 26:
		return cbor.ByteString("x")
	default:
		return nodeAt(doc, rapid.IntRange(0, countNodes(doc)-1).Draw(rt, "graft"))
	}
}

// mangleText changes a text a little.
func mangleText(rt *rapid.T, s string) string {
	if s == "" {
		return vk.Pick(rt, "text", hostileTexts...)
	}

	i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")

	switch vk.Pick(rt, "text change", "cut", "drop", "insert", "insert", "replace", "double", "upper", "reverse", "suffix", "bit") {
	case "cut":
		return s[:i]
	case "drop":
		return s[:i] + s[i+1:]
	case "insert":
		return s[:i] + vk.Pick(rt, "char", "~", ".", ":", "/", "#", "%", "\x00", " ", "é", "\"", "\\", "=", "_", "-", "0", "z", ",", ";", "[", "$", "T", "Z") + s[i:]
	case "replace":
		return s[:i] + vk.Pick(rt, "char", "~", ".", ":", "/", "#", "%", " ", "=", "_", "-", "0", "A", "z") + s[i+1:]
	case "double":
		return s + s
	case "upper":
		return strings.ToUpper(s)
	case "reverse":
		b := []byte(s)
		for l, r := 0, len(b)-1; l < r; l, r = l+1, r-1 {
			b[l], b[r] = b[r], b[l]
		}

		return strings.ToValidUTF8(string(b), "")
	case "suffix":
		return s[i:]
	default:
		b := []byte(s)
		b[i] ^= 1 << rapid.IntRange(0, 6).Draw(rt, "bit")

		return strings.ToValidUTF8(string(b), "?")
	}
}

// mangle changes a few values of a tree of JSON (or CBOR) values.
func mangle(rt *rapid.T, v any, inCBOR bool) any {
	for i := vk.Pick(rt, "changes", 1, 1, 1, 2, 2, 3, 5); i > 0; i-- {
		doc := v
		at := rapid.IntRange(0, countNodes(v)-1).Draw(rt, "node")

		out, keep := atNode(v, &at, func(x any) (any, bool) {
			how := vk.Pick(rt, "change", "replace", "replace", "replace", "remove", "wrap", "twice", "inside", "inside", "inside", "inside")

			switch how {
			case "replace":
				return hostile(rt, doc, inCBOR), true
			case "remove":
				return nil, false
			case "wrap":
				if rapid.Bool().Draw(rt, "in array") {
					return []any{x}, true
				}

				return map[string]any{vk.Pick(rt, "name", hostileNames...): x}, true
			case "twice":
				return []any{x, x}, true
			}

			switch t := x.(type) {
			case map[string]any:
				o := make(map[string]any, len(t)+1)
				for k, e := range t {
					o[k] = e
				}

				o[vk.Pick(rt, "name", hostileNames...)] = hostile(rt, doc, inCBOR)

				return o, true
			case map[any]any:
				o := make(map[any]any, len(t)+1)
				for k, e := range t {
					o[k] = e
				}

				if rapid.Bool().Draw(rt, "int key") {
					o[int64(rapid.IntRange(-3, 9).Draw(rt, "key"))] = hostile(rt, doc, inCBOR)
				} else {
					o[vk.Pick(rt, "name", hostileNames...)] = hostile(rt, doc, inCBOR)
				}

				return o, true
			case []any:
				return append(append([]any{}, t...), hostile(rt, doc, inCBOR)), true
			case string:
				return mangleText(rt, t), true
			case []byte:
				return []byte(mangleText(rt, string(t))), true
			default:
				return hostile(rt, doc, inCBOR), true
			}
		})
		if !keep {
			out = nil
		}

		v = out
	}

	return v
}

// mangleBytes changes raw bytes.
func mangleBytes(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)

	for i := rapid.IntRange(1, 3).Draw(rt, "byte changes"); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")

		switch vk.Pick(rt, "byte change", "cut", "flip", "set", "insert", "drop", "repeat", "nest") {
		case "cut":
			b = b[:at]
		case "flip":
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "set":
			b[at] = rapid.Byte().Draw(rt, "byte")
		case "insert":
			b = append(b[:at:at], append([]byte(vk.Pick(rt, "piece", "\x00", "\xff", "{", "}", "[", "]", "\"", ",", ":", "~", ".", "null", "1e999", "\\u0000", "\\ud800", "\xc0\x80")), b[at:]...)...)
		case "drop":
			n := min(len(b)-at, vk.Pick(rt, "n", 1, 2, 8, 64))
			b = append(b[:at:at], b[at+n:]...)
		case "repeat":
			n := min(len(b)-at, vk.Pick(rt, "n", 1, 4, 32, 256))
			b = append(b[:at+n:at+n], b[at:]...)
		default:
			n := vk.Pick(rt, "deep", 5, 100, 11000)
			b = append(b[:at:at], append([]byte(strings.Repeat(vk.Pick(rt, "open", "[", `{"a":`), n)), b[at:]...)...)
		}
	}

	return b
}

// forge gives another form of a credential or presentation text, whose parts are changed and signed anew.
func forge(rt *rapid.T, raw string, key *vk.Key, kid string) string {
	if strings.HasPrefix(raw, `"`) {
		var s string
		if json.Unmarshal([]byte(raw), &s) == nil {
			out := forge(rt, s, key, kid)
			if rapid.Bool().Draw(rt, "quoted") {
				return string(vk.MustJSON(out))
			}

			return out
		}
	}

	if strings.HasPrefix(raw, "{") || strings.HasPrefix(raw, "[") {
		var v any
		if json.Unmarshal([]byte(raw), &v) != nil {
			return string(mangleBytes(rt, []byte(raw)))
		}

		if m, ok := v.(map[string]any); ok && strings.HasPrefix(fmt.Sprint(m["id"]), "data:") && rapid.Bool().Draw(rt, "inside the URL") {
			u := m["id"].(string) //nolint:forcetypeassert
			head, tok, _ := strings.Cut(u, ",")
			m["id"] = head + "," + forge(rt, tok, key, kid)

			return string(vk.MustJSON(m))
		}

		return string(mangledJSON(rt, v))
	}

	if jwt, rest, ok := strings.Cut(raw, "~"); ok {
		return forgeSD(rt, jwt, rest, key)
	}

	if strings.Count(raw, ".") == 2 {
		return forgeJWS(rt, raw, key)
	}

	if b, err := hex.DecodeString(raw); err == nil && len(b) > 0 {
		return hex.EncodeToString(forgeCOSE(rt, b, key))
	}

	return string(mangleBytes(rt, []byte(raw)))
}

func mangledJSON(rt *rapid.T, v any) []byte {
	out, err := json.Marshal(mangle(rt, v, false))
	if err != nil {
		return []byte("null")
	}

	if vk.Coin(rt, "bytes too", 12) {
		return mangleBytes(rt, out)
	}

	return out
}

// joinJWS signs the header and payload texts.
func joinJWS(header, payload []byte, key *vk.Key) string {
	in := vk.B64(header) + "." + vk.B64(payload)

	sig, err := key.Sign([]byte(in))
	if err != nil {
		panic(err)
	}

	return in + "." + vk.B64(sig)
}

func forgeJWS(rt *rapid.T, tok string, key *vk.Key) string {
	parts := strings.Split(tok, ".")
	header, err1 := base64.RawURLEncoding.DecodeString(parts[0])
	payload, err2 := base64.RawURLEncoding.DecodeString(parts[1])

	if err1 != nil || err2 != nil {
		return mangleText(rt, tok)
	}

	change := func(b []byte) []byte {
		var v any
		if json.Unmarshal(b, &v) != nil {
			return mangleBytes(rt, b)
		}

		return mangledJSON(rt, v)
	}

	switch vk.Pick(rt, "part of token", "header", "payload", "payload", "payload", "both", "signature", "text", "unsigned") {
	case "header":
		header = change(header)
	case "payload":
		payload = change(payload)
	case "both":
		header, payload = change(header), change(payload)
	case "signature":
		sig, _ := base64.RawURLEncoding.DecodeString(parts[2])

		return parts[0] + "." + parts[1] + "." + vk.B64(mangleBytes(rt, sig))
	case "text":
		return mangleText(rt, tok)
	default:
		return vk.B64([]byte(`{"alg":"none"}`)) + "." + vk.B64(change(payload)) + "."
	}

	return joinJWS(header, payload, key)
}

func forgeSD(rt *rapid.T, jwt, rest string, key *vk.Key) string {
	ds := strings.Split(rest, "~")

	for i := rapid.IntRange(1, 2).Draw(rt, "sd changes"); i > 0; i-- {
		at := rapid.IntRange(0, len(ds)-1).Draw(rt, "disclosure")

		switch vk.Pick(rt, "sd change", "token", "token", "disclosure", "disclosure", "disclosure", "repeat", "drop", "binding", "text", "made up", "made up") {
		case "token":
			if strings.Count(jwt, ".") == 2 {
				jwt = forgeJWS(rt, jwt, key)
			}
		case "disclosure":
			b, err := base64.RawURLEncoding.DecodeString(ds[at])

			var v any
			if err != nil || json.Unmarshal(b, &v) != nil {
				ds[at] = mangleText(rt, ds[at])

				continue
			}

			ds[at], jwt = swapDisclosure(jwt, ds[at], vk.B64(mangledJSON(rt, v)), key)
		case "repeat":
			ds = append(ds, ds[at])
		case "drop":
			ds = append(ds[:at:at], ds[at+1:]...)
			if len(ds) == 0 {
				ds = []string{""}
			}
		case "binding":
			ds = append(ds, vk.Pick(rt, "binding", "", "a.b.c", "e30.e30.e30", joinJWS([]byte(`{"alg":"EdDSA","typ":"kb+jwt"}`), []byte(`{}`), key),
				joinJWS([]byte(`{"alg":"EdDSA"}`), []byte(`null`), key), joinJWS([]byte(`{"alg":"EdDSA","typ":"kb+jwt"}`), []byte(`{"nonce":1,"aud":[],"iat":"x"}`), key)))
		case "made up":
			d := vk.Pick(rt, "disclosed", `[]`, `{}`, `null`, `"x"`, `["s"]`, `["s","n"]`, `["s","n",1,2]`, `[1,2,3]`, `["s",1,2]`, `["s","_sd",["x"]]`, `["s","...",1]`, `["s",{"_sd":["x"]}]`, `["s",{"...":"x"}]`, `["s","n",{"_sd":1}]`, `["s","n",null]`, `["s",null]`)
			enc := vk.B64([]byte(d))

			if rapid.Bool().Draw(rt, "under another's digest") {
				ds[at], jwt = swapDisclosure(jwt, ds[at], enc, key)
			} else {
				ds = append(ds, enc)
			}
		default:
			ds[at] = mangleText(rt, ds[at])
		}
	}

	return jwt + "~" + strings.Join(ds, "~")
}

// swapDisclosure puts a disclosure in the place of another, and signs its digest instead of the other's.
func swapDisclosure(jwt, was, is string, key *vk.Key) (string, string) {
	parts := strings.Split(jwt, ".")
	if len(parts) != 3 {
		return is, jwt
	}

	header, err1 := base64.RawURLEncoding.DecodeString(parts[0])
	payload, err2 := base64.RawURLEncoding.DecodeString(parts[1])

	if err1 != nil || err2 != nil {
		return is, jwt
	}

	text := string(payload)
	for _, h := range sdHashes {
		text = strings.ReplaceAll(text, refDigest(h, was), refDigest(h, is))
	}

	return is, joinJWS(header, []byte(text), key)
}

func forgeCOSE(rt *rapid.T, raw []byte, key *vk.Key) []byte {
	s, err := splitSign1(raw)
	if err != nil || vk.Coin(rt, "raw", 6) {
		return mangleBytes(rt, raw)
	}

	change := func(b []byte) []byte {
		var v any
		if cbor.Unmarshal(b, &v) != nil {
			return mangleBytes(rt, b)
		}

		out, err := cbor.Marshal(mangle(rt, v, true))
		if err != nil {
			return mangleBytes(rt, b)
		}

		return out
	}

	switch vk.Pick(rt, "part of COSE", "payload", "payload", "payload", "protected", "unprotected", "sig") {
	case "payload":
		s.payload = change(s.payload)
	case "protected":
		s.protected = change(s.protected)
	case "unprotected":
		s.unprotected = change(s.unprotected)
	default:
		s.sig = mangleBytes(rt, s.sig)
		out, _ := s.encode()

		return out
	}

	sig, err := key.Sign(sigStructure(s.protected, s.payload))
	if err != nil {
		panic(err)
	}

	s.sig = sig
	out, _ := s.encode()

	return out
}

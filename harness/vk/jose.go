package vk

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	josejson "github.com/go-jose/go-jose/v3/json"
)

// B64 is unpadded base64url.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// UnB64 decodes unpadded base64url or panics.
func UnB64(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}

	return b
}

// MustJSON marshals or panics.
func MustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}

// MakeJWS is an independent compact JWS serializer.
func MakeJWS(headers map[string]any, payload []byte, k *Key) string {
	in := B64(MustJSON(headers)) + "." + B64(payload)

	sig, err := k.Sign([]byte(in))
	if err != nil {
		panic(err)
	}

	return in + "." + B64(sig)
}

// SplitJWS splits a compact JWS into its decoded parts.
func SplitJWS(s string) (hdr map[string]any, payload, sig []byte, err error) {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return nil, nil, nil, fmt.Errorf("%d parts", len(p))
	}

	h, err := base64.RawURLEncoding.DecodeString(p[0])
	if err != nil {
		return nil, nil, nil, err
	}

	if err = json.Unmarshal(h, &hdr); err != nil {
		return nil, nil, nil, err
	}

	if payload, err = base64.RawURLEncoding.DecodeString(p[1]); err != nil {
		return nil, nil, nil, err
	}

	sig, err = base64.RawURLEncoding.DecodeString(p[2])

	return hdr, payload, sig, err
}

// DecodeJSON decodes keeping numbers exact.
func DecodeJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()

	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}

	return v, nil
}

// Norm turns any JSON-marshallable value into the exact generic form (numbers as json.Number).
func Norm(v any) any {
	v = foreign(v)

	out, err := DecodeJSON(MustJSON(v))
	if err != nil {
		panic(err)
	}

	return out
}

// foreign replaces go-jose's number type, which encoding/json takes for a string.
func foreign(v any) any {
	switch x := v.(type) {
	case josejson.Number:
		return json.Number(string(x))
	case map[string]any:
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[k] = foreign(e)
		}

		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = foreign(e)
		}

		return out
	default:
		return v
	}
}

// Clone deep-copies a JSON value (numbers become float64 as encoding/json does).
func Clone(v any) any {
	var out any
	if err := json.Unmarshal(MustJSON(foreign(v)), &out); err != nil {
		panic(err)
	}

	return out
}

// CloneMap deep-copies a JSON object.
func CloneMap(m map[string]any) map[string]any { return Clone(m).(map[string]any) }

// Same compares two JSON-like values for equality of meaning, numbers by exact value.
func Same(a, b any) bool { return Diff(a, b) == "" }

// Diff tells the first place at which two JSON-like values differ ("" = none).
func Diff(a, b any) string { return diff("$", Norm(a), Norm(b), true) }

// DiffF is Diff with numbers compared as IEEE doubles.
func DiffF(a, b any) string { return diff("$", Norm(a), Norm(b), false) }

func num(n json.Number) *big.Rat {
	s := string(n)
	if i := strings.IndexAny(s, "eE"); i >= 0 && len(s)-i > 5 {
		return nil
	}

	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}

	return r
}

func diff(path string, a, b any, exact bool) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: object %.200s vs %.200s", path, JS(a), JS(b))
		}

		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return fmt.Sprintf("%s: member %q only on the left (%.200s)", path, k, JS(v))
			}

			if d := diff(path+"."+k, v, w, exact); d != "" {
				return d
			}
		}

		for k, v := range y {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s: member %q only on the right (%.200s)", path, k, JS(v))
			}
		}

		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: array %.300s vs %.300s", path, JS(a), JS(b))
		}

		for i := range x {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i], exact); d != "" {
				return d
			}
		}

		return ""
	case json.Number:
		y, ok := b.(json.Number)
		if ok {
			if x == y {
				return ""
			}

			p, q := num(x), num(y)
			if p != nil && q != nil {
				if p.Cmp(q) == 0 {
					return ""
				}

				if !exact {
					f, _ := p.Float64()
					g, _ := q.Float64()

					if f == g {
						return ""
					}
				}
			}
		}

		return fmt.Sprintf("%s: number %s vs %.200s", path, x, JS(b))
	default:
		if a == b {
			return ""
		}

		return fmt.Sprintf("%s: %.200s vs %.200s", path, JS(a), JS(b))
	}
}

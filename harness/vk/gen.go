package vk

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"unicode"

	"pgregory.net/rapid"
)

var oddStrings = []string{
	"", " ", "a.b", "a/b", "~tilde", "<script>&\"'", "ünï-cødé", "日本語", "\u0000x", "line\nbreak", "tab\t", "\\back\\",
	"$", "$.vc", "@id", "_sd", "...", "a#b", "did:example:x", "null", "true", "0", "-1", "1e400", "😀", "\u2028", strings.Repeat("long", 40),
	"%41%20", "data:,x", "a,b;c", "2020-01-01T00:00:00Z",
}

// Str generates a JSON string value (valid UTF-8), mostly short words with odd ones mixed in.
func Str() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "strkind") {
		case 8:
			if Coin(t, "long", 50) {
				return strings.Repeat(Pick(t, "unit", "long", "é", "a <b> & ", "\\\"", "0"), Pick(t, "times", 70, 300, 1100, 4200, 17000))
			}

			return rapid.SampledFrom(oddStrings).Draw(t, "odd")
		case 9:
			return rapid.StringN(0, 12, 40).Draw(t, "uni")
		default:
			return Word().Draw(t, "w")
		}
	})
}

// Word generates a non-empty plain identifier-like string.
func Word() *rapid.Generator[string] { return rapid.StringMatching(`[a-z][a-zA-Z0-9]{0,7}`) }

// Name generates a member name: words, with some odd names.
func Name() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 11).Draw(t, "namekind") {
		case 10:
			return "x-" + rapid.SampledFrom([]string{"ünï", "a b", "a/b", "~", "日本", "<b>", "q\"", "a\\b", "&", "."}).Draw(t, "oddname")
		case 11:
			return "n" + rapid.StringMatching(`[0-9_\-]{1,4}`).Draw(t, "digname")
		default:
			return Word().Draw(t, "name")
		}
	})
}

// Num generates a JSON number that encoding/json keeps exactly (as float64).
func Num() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		switch rapid.IntRange(0, 5).Draw(t, "numkind") {
		case 0:
			return float64(rapid.IntRange(-3, 3).Draw(t, "small"))
		case 1:
			return float64(rapid.Int64Range(-(1<<53), 1<<53).Draw(t, "int53"))
		case 2:
			return float64(rapid.IntRange(-1000, 1000).Draw(t, "q")) / 4
		case 3:
			return rapid.SampledFrom([]float64{1e21, 1e-7, 1.5e300, -1e100, 0.1, 123456789012, 2147483648, 4294967296, 1e20}).Draw(t, "oddnum")
		case 4:
			return float64(rapid.Int32().Draw(t, "int32"))
		default:
			return float64(rapid.IntRange(0, 100000).Draw(t, "n"))
		}
	})
}

// JSONOpts tunes JSON generation.
type JSONOpts struct {
	Depth    int
	NoNull   bool // no null anywhere
	NoEmpty  bool // no empty arrays/objects
	MaxWidth int
	Names    *rapid.Generator[string]
}

// JSON generates any JSON value.
func JSON(o JSONOpts) *rapid.Generator[any] {
	if o.MaxWidth == 0 {
		o.MaxWidth = 3
	}

	if o.Names == nil {
		o.Names = Name()
	}

	return rapid.Custom(func(t *rapid.T) any { return drawJSON(t, o) })
}

func drawJSON(t *rapid.T, o JSONOpts) any {
	top := 7
	if o.Depth <= 0 {
		top = 4
	}

	switch rapid.IntRange(0, top).Draw(t, "kind") {
	case 0, 1:
		return Str().Draw(t, "s")
	case 2:
		return Num().Draw(t, "n")
	case 3:
		return rapid.Bool().Draw(t, "b")
	case 4:
		if o.NoNull {
			return Word().Draw(t, "s")
		}

		return nil
	case 5, 6:
		p := o
		p.Depth--

		return drawObj(t, p, boolInt(o.NoEmpty))
	default:
		p := o
		p.Depth--
		n := rapid.IntRange(boolInt(o.NoEmpty), o.MaxWidth).Draw(t, "len")
		out := make([]any, 0, n)

		for i := 0; i < n; i++ {
			out = append(out, drawJSON(t, p))
		}

		return out
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}

	return 0
}

func drawObj(t *rapid.T, o JSONOpts, minN int) map[string]any {
	if o.MaxWidth == 0 {
		o.MaxWidth = 3
	}

	if o.Names == nil {
		o.Names = Name()
	}

	n := rapid.IntRange(minN, o.MaxWidth).Draw(t, "members")
	out := make(map[string]any, n)

	for i := 0; i < n; i++ {
		name := o.Names.Draw(t, "name")
		for _, dup := out[name]; dup; _, dup = out[name] {
			name += "2"
		}

		out[name] = drawJSON(t, o)
	}

	return out
}

// Obj generates a JSON object with at least minN members.
func Obj(o JSONOpts, minN int) *rapid.Generator[map[string]any] {
	return rapid.Custom(func(t *rapid.T) map[string]any { return drawObj(t, o, minN) })
}

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, vs ...T) T { return rapid.SampledFrom(vs).Draw(t, label) }

// Coin is true about one time in n.
func Coin(t *rapid.T, label string, n int) bool { return rapid.IntRange(1, n).Draw(t, label) == n }

// Time generates an instant; fraction digits and zone vary.
func Time() *rapid.Generator[time.Time] {
	return rapid.Custom(func(t *rapid.T) time.Time {
		sec := rapid.Int64Range(0, 4102444800).Draw(t, "sec") // 1970..2100
		ns := int64(0)

		switch rapid.IntRange(0, 3).Draw(t, "frac") {
		case 2:
			ns = int64(rapid.IntRange(0, 999).Draw(t, "ms")) * 1e6
		case 3:
			ns = rapid.Int64Range(0, 999999999).Draw(t, "ns")
		}

		tm := time.Unix(sec, ns).UTC()

		if Coin(t, "zone?", 4) {
			off := rapid.IntRange(-14*60, 14*60).Draw(t, "off")
			tm = tm.In(time.FixedZone("", off*60))
		}

		return tm
	})
}

// URI generates an absolute URI of a kind used as id.
func URI() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		w := Word().Draw(t, "path")

		switch rapid.IntRange(0, 4).Draw(t, "urikind") {
		case 0:
			return "http://example.edu/" + w + "/" + fmt.Sprint(rapid.IntRange(0, 99999).Draw(t, "n"))
		case 1:
			return "did:example:" + w
		case 2:
			return "urn:uuid:" + rapid.StringMatching(`[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-8[0-9a-f]{3}-[0-9a-f]{12}`).Draw(t, "uuid")
		case 3:
			return "https://example.com/" + w + "?q=" + Word().Draw(t, "q") + "&r=1#frag"
		default:
			return "https://" + strings.ToLower(w) + ".example.org/" + Word().Draw(t, "p2")
		}
	})
}

// SortedKeys are the member names in order.
func SortedKeys(m map[string]any) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	return Sorted(out)
}

// Sorted returns a sorted copy.
func Sorted(s []string) []string {
	out := append([]string{}, s...)
	sort.Strings(out)

	return out
}

// Near draws a text that differs from s only a little: case, one character, cut, longer, space around it, ...
func Near(t *rapid.T, label, s string) string {
	r := []rune(s)
	i := 0
	if len(r) > 0 {
		i = rapid.IntRange(0, len(r)-1).Draw(t, label+" at")
	}
	alts := []string{
		strings.ToUpper(s), strings.ToLower(s), strings.Title(s), //nolint:staticcheck
		s + " ", " " + s, s + "\n", s + "\x00", s + "x", s + s, s + "/", s + ".", s + "#", "x" + s,
		strings.TrimSpace(s), "",
	}
	if len(r) > 0 {
		flip := r[i]
		if unicode.IsUpper(flip) {
			flip = unicode.ToLower(flip)
		} else {
			flip = unicode.ToUpper(flip)
		}
		alts = append(alts, string(r[:i])+string(flip)+string(r[i+1:]), string(r[:i])+string(r[i+1:]), string(r[:i]), string(r[i+1:]),
			string(r[:len(r)-1]), string(r[:i])+"?"+string(r[i+1:]))
	}
	var diff []string
	for _, a := range alts {
		if a != s {
			diff = append(diff, a)
		}
	}
	return rapid.SampledFrom(diff).Draw(t, label)
}

// Size draws how many there are of something: lo to hi mostly, many more now and then.
func Size(t *rapid.T, label string, lo, hi int) int {
	if rapid.IntRange(0, 15).Draw(t, label+" crowd") == 15 {
		return rapid.IntRange(lo, 4*hi+8).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

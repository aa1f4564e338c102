package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/mitchellh/mapstructure"
	jsonutil "github.com/trustbloc/vc-go/util/json"
	"github.com/trustbloc/vc-go/util/maphelpers"
	timeutil "github.com/trustbloc/vc-go/util/time"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

var (
	stampStrict = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d|)$`)
	stampLoose  = regexp.MustCompile(`^\d{4}-\d\d-\d\d[Tt ]\d{1,2}:\d\d:\d\d([.,]\d+)?([Zz]|[+-]\d\d:?\d\d)?$`)
)

// refInstant is an independent reading of a timestamp: seconds since 1970 and nanoseconds. It is 1 for a timestamp, -1
// for what is none and 0 for what may count as one.
func refInstant(s string) (sec int64, nano int, verdict int) {
	m := stampStrict.FindStringSubmatch(s)
	if m == nil {
		if stampLoose.MatchString(s) {
			return 0, 0, 0
		}

		return 0, 0, -1
	}

	n := make([]int64, 7)
	for i := 1; i <= 6; i++ {
		n[i], _ = strconv.ParseInt(m[i], 10, 64)
	}

	y, mo, d, h, mi, se := n[1], n[2], n[3], n[4], n[5], n[6]
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

	if leap {
		days[1] = 29
	}

	if mo < 1 || mo > 12 || d < 1 || d > days[mo-1] || h > 23 || mi > 59 || se > 60 {
		return 0, 0, -1
	}

	verdict = 1
	if se == 60 {
		verdict = 0
	}

	// days since 1970 of the civil date (years counted from March)
	yy, mm := y, mo
	if mm <= 2 {
		yy, mm = yy-1, mm+12
	}

	floor := func(a, b int64) int64 {
		if a < 0 {
			return -((-a + b - 1) / b)
		}

		return a / b
	}
	day := 365*yy + floor(yy, 4) - floor(yy, 100) + floor(yy, 400) + (153*(mm-3)+2)/5 + d - 1 - 719468
	sec = day*86400 + h*3600 + mi*60 + se

	if len(m[8]) == 6 {
		oh, _ := strconv.ParseInt(m[8][1:3], 10, 64)
		om, _ := strconv.ParseInt(m[8][4:], 10, 64)

		if oh > 23 || om > 59 {
			verdict = 0
		}

		off := oh*3600 + om*60
		if m[8][0] == '-' {
			off = -off
		}

		sec -= off
	}

	frac := (m[7] + "000000000")[:9]
	nano, _ = strconv.Atoi(frac)

	return sec, nano, verdict
}

func drawStamp(rt *rapid.T) string {
	if vk.Coin(rt, "free", 10) {
		return vk.Str().Draw(rt, "text")
	}

	wild := func(label string, lo, hi, wlo, whi int) int {
		if vk.Coin(rt, "wild", 15) {
			return rapid.IntRange(wlo, whi).Draw(rt, label)
		}

		return rapid.IntRange(lo, hi).Draw(rt, label)
	}

	year := vk.Pick(rt, "year", 0, 1, 1582, 1600, 1900, 1969, 1970, 2000, 2020, 2023, 2024, 2100, 9999)
	if rapid.Bool().Draw(rt, "anyyear") {
		year = rapid.IntRange(0, 9999).Draw(rt, "y")
	}

	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", year, wild("mo", 1, 12, 0, 14), wild("d", 1, 31, 0, 33),
		wild("h", 0, 23, 0, 26), wild("mi", 0, 59, 0, 61), wild("s", 0, 59, 0, 61))

	if rapid.Bool().Draw(rt, "fraction") {
		s += "." + rapid.StringMatching(`[0-9]{1,9}|0{1,9}|[0-9]{10,14}`).Draw(rt, "frac")
	}

	switch rapid.IntRange(0, 5).Draw(rt, "zone") {
	case 0, 1:
		s += "Z"
	case 2:
	default:
		s += fmt.Sprintf("%s%02d:%02d", vk.Pick(rt, "sign", "+", "-"), wild("oh", 0, 14, 0, 26), wild("om", 0, 59, 0, 61))
	}

	if vk.Coin(rt, "mutilate", 8) && len(s) > 0 {
		i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")

		switch rapid.IntRange(0, 2).Draw(rt, "how") {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + vk.Pick(rt, "char", " ", "0", "9", "-", ":", "T", "Z", "+", ".", "x") + s[i:]
		case 2:
			s = s[:i] + vk.Pick(rt, "char", " ", "0", "9", "-", ":", "T", "Z", "+", ".", "x") + s[i+1:]
		}
	}

	return s
}

func TestC25_Timestamps(t *testing.T) {
	type holder struct {
		P *timeutil.TimeWrapper `json:"p,omitempty"`
		V timeutil.TimeWrapper  `json:"v"`
	}

	vk.Check(t, "the text is a timestamp", 20000, 1000000, func(rt *rapid.T, c *vk.Case) {
		s := drawStamp(rt)
		sec, nano, verdict := refInstant(s)

		same := func(what string, tm time.Time) {
			if verdict == 1 && (tm.Unix() != sec || tm.Nanosecond() != nano) {
				rt.Fatalf("%s of %q is %v (%d.%09d), want %d.%09d", what, s, tm, tm.Unix(), tm.Nanosecond(), sec, nano)
			}
		}

		tw, err := timeutil.ParseTimeWrapper(s)
		if verdict == 1 && err != nil || verdict == -1 && err == nil {
			rt.Fatalf("%q: %v (verdict %d)", s, err, verdict)
		}

		old, err2 := timeutil.ParseTimeWithTrailingZeroMsec(s)
		if (err == nil) != (err2 == nil) || err == nil && (!old.Equal(tw.Time) || old.FormatToString() != tw.FormatToString()) {
			rt.Fatalf("%q is parsed differently: %v %v", s, err, err2)
		}

		var h holder

		doc := vk.MustJSON(map[string]any{"p": s, "v": s})

		err3 := json.Unmarshal(doc, &h)
		if (err == nil) != (err3 == nil) {
			rt.Fatalf("%q is parsed (%v) differently from JSON (%v)", s, err, err3)
		}

		c.Class("verdict %d accepted=%v", verdict, err == nil)
		c.Sample(s)

		if err != nil {
			return
		}

		c.NonTrivial(s)
		same("parsed time", tw.Time)
		same("member", h.P.Time)
		same("value member", h.V.Time)

		if tw.FormatToString() != s || h.P.FormatToString() != s || h.V.FormatToString() != s {
			rt.Fatalf("%q is formatted as %q %q %q", s, tw.FormatToString(), h.P.FormatToString(), h.V.FormatToString())
		}

		for _, v := range []any{h, &h} {
			out, e := json.Marshal(v)
			if e != nil {
				if verdict == 1 {
					rt.Fatalf("%q is not written: %v", s, e)
				}

				return
			}

			if d := vk.Diff(vk.Norm(json.RawMessage(doc)), vk.Norm(json.RawMessage(out))); d != "" {
				rt.Fatalf("%s is written as %s: %s", doc, out, d)
			}
		}

		if e := tw.UnmarshalJSON([]byte("null")); e != nil || tw.FormatToString() != s {
			rt.Fatalf("null changed %q to %q (%v)", s, tw.FormatToString(), e)
		}

		// a bad text changes nothing, another timestamp changes all
		if e := tw.UnmarshalJSON([]byte(vk.Pick(rt, "bad", `"x"`, `7`, `{}`, `"2020-13-01T00:00:00Z"`, `""`))); e == nil ||
			tw.FormatToString() != s {
			rt.Fatalf("a bad text changed %q to %q (%v)", s, tw.FormatToString(), e)
		}

		same("kept time", tw.Time)

		if e := tw.UnmarshalJSON([]byte(`"2001-02-03T04:05:06.70Z"`)); e != nil ||
			tw.FormatToString() != "2001-02-03T04:05:06.70Z" || tw.Unix() != 981173106 {
			rt.Fatalf("%q remains as %q %v (%v)", s, tw.FormatToString(), tw.Time, e)
		}
	})
}

func TestC25_Times(t *testing.T) {
	vk.Check(t, "every time", 5000, 200000, func(rt *rapid.T, c *vk.Case) {
		sec := rapid.Int64Range(-62135596800+86400, 253402300799-86400).Draw(rt, "sec")
		zone := time.FixedZone("z", 60*rapid.IntRange(-14*60, 14*60).Draw(rt, "zone"))
		tm := time.Unix(sec, int64(vk.Pick(rt, "nano", 0, 0, 1, 500000000, 120000000, 999999999))).In(zone)

		tw := timeutil.NewTime(tm)
		if rapid.Bool().Draw(rt, "old") {
			tw = timeutil.NewTimeWithTrailingZeroMsec(tm, rapid.IntRange(0, 9).Draw(rt, "digits"))
		}

		c.NonTrivial(tm.String())
		c.Sample(tm.String())

		for i := 0; i < 3; i++ {
			text := tw.FormatToString()

			s, n, verdict := refInstant(text)
			if verdict != 1 || s != sec || n != tm.Nanosecond() || !tw.Equal(tm) {
				rt.Fatalf("%v becomes %q (%d.%09d)", tm, text, s, n)
			}

			out, err := json.Marshal(tw)
			if err != nil || string(out) != `"`+text+`"` {
				rt.Fatalf("%v is written as %s (%v), formatted as %q", tm, out, err, text)
			}

			tw = &timeutil.TimeWrapper{}
			if err = json.Unmarshal(out, tw); err != nil {
				rt.Fatalf("%v is not read back: %v", tm, err)
			}
		}
	})
}

type named25 struct {
	A string                 `json:"a,omitempty"`
	B *float64               `json:"b,omitempty"`
	C []string               `json:"c,omitempty"`
	D map[string]interface{} `json:"d,omitempty"`
	E bool                   `json:"eE"`
	F string                 `json:"-"`
}

// drawNamed draws members for named25 and custom ones.
func drawNamed(rt *rapid.T) (all, known, custom map[string]any) {
	known = map[string]any{"eE": rapid.Bool().Draw(rt, "e")}

	if rapid.Bool().Draw(rt, "a") {
		known["a"] = vk.Str().Draw(rt, "av") + "a"
	}

	if rapid.Bool().Draw(rt, "b") {
		known["b"] = vk.Num().Draw(rt, "bv")
	}

	if rapid.Bool().Draw(rt, "c") {
		known["c"] = []any{vk.Str().Draw(rt, "c0"), vk.Str().Draw(rt, "c1")}
	}

	if rapid.Bool().Draw(rt, "d") {
		known["d"] = vk.Obj(vk.JSONOpts{Depth: 2}, 1).Draw(rt, "dv")
	}

	custom = map[string]any{}

	for i, n := 0, vk.Size(rt, "customs", 0, 4); i < n; i++ {
		k := vk.Str().Draw(rt, "key")
		if vk.Coin(rt, "odd", 3) {
			k = vk.Pick(rt, "oddkey", "F", "-", "aa", "e", "ee_", "", "a ", "json", "d.x")
		}

		low := strings.ToLower(k)
		switch low { // readers of JSON take names for each other that differ in case
		case "a", "b", "c", "d", "ee":
			continue
		}

		custom[k] = vk.JSON(vk.JSONOpts{Depth: 2}).Draw(rt, "v")
	}

	all = map[string]any{}
	for k, v := range known {
		all[k] = v
	}

	for k, v := range custom {
		all[k] = v
	}

	return all, known, custom
}

func TestC25_CustomMembers(t *testing.T) {
	vk.Check(t, "there are custom members", 5000, 200000, func(rt *rapid.T, c *vk.Case) {
		all, known, custom := drawNamed(rt)
		raw := vk.MustJSON(all)

		if len(custom) > 0 {
			c.NonTrivial(string(raw))
		}
		c.Sample(json.RawMessage(raw))

		var v named25

		cf := map[string]interface{}{}

		if err := jsonutil.UnmarshalWithCustomFields(raw, &v, cf); err != nil {
			rt.Fatalf("%s: %v", raw, err)
		}

		if d := vk.Diff(custom, cf); d != "" {
			rt.Fatalf("custom members of %s: %s", raw, d)
		}

		if d := vk.Diff(known, v); d != "" {
			rt.Fatalf("named members of %s: %s", raw, d)
		}

		kept := vk.CloneMap(cf)

		out, err := jsonutil.MarshalWithCustomFields(&v, cf)
		if err != nil {
			rt.Fatal(err)
		}

		if d := vk.Diff(all, json.RawMessage(out)); d != "" {
			rt.Fatalf("%s is written as %s: %s", raw, out, d)
		}

		// named members win over custom ones of the same name, and the inputs stay as they are
		if rapid.Bool().Draw(rt, "clash") {
			cf["a"], cf["eE"], cf["zz"] = "other", "other", "other"
			kept["a"], kept["eE"], kept["zz"] = "other", "other", "other"
		}

		want := vk.CloneMap(kept)
		for k, x := range known {
			want[k] = x
		}

		before := v

		merged, err := jsonutil.MergeCustomFields(v, cf)
		if err != nil {
			rt.Fatal(err)
		}

		if d := vk.Diff(want, merged); d != "" {
			rt.Fatalf("merge of %s and %s: %s", vk.JS(before), vk.JS(cf), d)
		}

		merged["added"] = 1

		if vk.Diff(kept, cf) != "" || !reflect.DeepEqual(before, v) {
			rt.Fatalf("merging changed %s", vk.JS(cf))
		}

		obj := vk.CloneMap(known)
		jsonutil.AddCustomFields(obj, cf)

		if d := vk.Diff(want, obj); d != "" || vk.Diff(kept, cf) != "" {
			rt.Fatalf("adding %s to %s: %s", vk.JS(cf), vk.JS(known), d)
		}

		// also when they are null
		nulls := map[string]any{"n": nil, "m": vk.Pick[any](rt, "m", nil, 0.0, "", false)}
		both := map[string]any{"n": "other", "m": "other", "o": nil}
		want = map[string]any{"n": nil, "m": nulls["m"], "o": nil}

		if merged, err = jsonutil.MergeCustomFields(nulls, both); err != nil || vk.Diff(want, merged) != "" {
			rt.Fatalf("merge of %s and %s: %s %v", vk.JS(nulls), vk.JS(both), vk.JS(merged), err)
		}

		if jsonutil.AddCustomFields(nulls, both); vk.Diff(want, nulls) != "" {
			rt.Fatalf("adding %s gives %s", vk.JS(both), vk.JS(nulls))
		}
	})
}

func TestC25_Objects(t *testing.T) {
	vk.Check(t, "the object has members that are selected and members that are not", 5000, 200000,
		func(rt *rapid.T, c *vk.Case) {
			obj := vk.Obj(vk.JSONOpts{Depth: 3}, 0).Draw(rt, "obj")
			kept := vk.CloneMap(obj)
			names := []string{}

			for _, k := range vk.SortedKeys(obj) {
				if rapid.Bool().Draw(rt, "sel") {
					names = append(names, k)
				}
			}

			for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "absent"); i < n; i++ {
				names = append(names, vk.Str().Draw(rt, "name"))
			}

			if len(names) > 0 && vk.Coin(rt, "twice", 4) {
				names = append(names, names[0])
			}

			in, out := map[string]any{}, map[string]any{}

			for k, v := range kept {
				out[k] = v

				for _, n := range names {
					if n == k {
						in[k] = v
						delete(out, k)
					}
				}
			}

			if len(in) > 0 && len(out) > 0 {
				c.NonTrivial(vk.JS(obj), names)
			}
			c.Sample(map[string]any{"object": obj, "names": names})

			selected, rest := jsonutil.SplitJSONObj(obj, names...)
			copied := jsonutil.ShallowCopyObj(obj)
			except := jsonutil.CopyExcept(obj, names...)
			sel := jsonutil.Select(obj, names...)
			deep := maphelpers.CopyMap(obj)

			for _, x := range []struct {
				what      string
				got, want map[string]any
			}{
				{"split: selected", selected, in},
				{"split: rest", rest, out},
				{"copy", copied, kept},
				{"copy except", except, out},
				{"select", sel, in},
				{"copy of map", deep, kept},
			} {
				if d := vk.Diff(x.want, x.got); d != "" {
					rt.Fatalf("%s of %s by %q: %s", x.what, vk.JS(kept), names, d)
				}

				if x.got == nil {
					rt.Fatalf("%s is nil", x.what)
				}
			}

			// adding to and taking from the results leaves the object alone; changing the copy of the map at any depth does
			for _, m := range []map[string]any{selected, rest, copied, except, sel} {
				for k := range m {
					delete(m, k)
				}

				m["added"] = 1
			}

			spoilMaps(deep)

			if d := vk.Diff(kept, obj); d != "" {
				rt.Fatalf("the object has changed: %s", d)
			}

			// conversions
			for _, v := range []any{obj, string(vk.MustJSON(obj)), vk.MustJSON(obj), json.RawMessage(vk.MustJSON(obj))} {
				if raw, ok := v.(json.RawMessage); ok {
					v = struct {
						X json.RawMessage `json:"x"`
					}{raw}
					kept = map[string]any{"x": kept}
				}

				m, err := jsonutil.ToMap(v)
				if err != nil {
					rt.Fatal(err)
				}

				if d := vk.Diff(kept, m); d != "" {
					rt.Fatalf("map of %T: %s", v, d)
				}
			}

			for _, bad := range []any{"[]", "x", []byte("7"), []any{obj}, "", vk.JS(obj) + "}", func() {}} {
				if m, err := jsonutil.ToMap(bad); err == nil {
					rt.Fatalf("%v becomes %v", bad, m)
				}
			}
		})
}

// spoilMaps changes an object and the objects that are its members, at any depth.
func spoilMaps(m map[string]any) {
	for k, v := range m {
		if sub, ok := v.(map[string]any); ok {
			spoilMaps(sub)
		} else {
			m[k] = "spoiled"
		}
	}

	m["added"] = 1
}

func TestC25_DataURLs(t *testing.T) {
	vk.Check(t, "the URL has the format", 5000, 200000, func(rt *rapid.T, c *vk.Case) {
		media := rapid.StringMatching(`[a-z]{1,5}/[a-zA-Z0-9.+_-]{1,12}`).Draw(rt, "media")
		if vk.Coin(rt, "usual", 3) {
			media = vk.Pick(rt, "usual", "application/vc+jwt", "application/vc+sd-jwt", "application/vp+cose", "text/plain")
		}

		enc := vk.Pick(rt, "encoding", "", "", "base64")
		data := vk.Str().Draw(rt, "data") + vk.Pick(rt, "tail", "", ",", ";", ";base64,x", "data:x,y", "a.b.c~d")

		url := verifiable.NewDataURL(verifiable.MediaType(media), verifiable.Encoding(enc), data)

		want := "data:" + media
		if enc != "" {
			want += ";" + enc
		}

		if want += "," + data; url != want {
			rt.Fatalf("data URL %q, want %q", url, want)
		}

		m, e, d, err := verifiable.ParseDataURL(url)
		if err != nil || string(m) != media || string(e) != enc || d != data {
			rt.Fatalf("%q is parsed as %q %q %q (%v)", url, m, e, d, err)
		}

		c.NonTrivial(url)
		c.Sample(url)

		for _, bad := range []string{
			media + "," + data, "Data;" + media + "," + data, "data:" + media + strings.ReplaceAll(data, ",", ""),
			"data:," + data, "dat:" + media + "," + data, "", " " + url,
		} {
			if _, _, _, err = verifiable.ParseDataURL(bad); err == nil {
				rt.Fatalf("%q is parsed", bad)
			}
		}
	})
}

func TestC25_NumericDates(t *testing.T) {
	vk.Check(t, "every number", 3000, 100000, func(rt *rapid.T, c *vk.Case) {
		sec := rapid.Int64Range(-62135596800, 253402300799).Draw(rt, "sec")
		text := strconv.FormatInt(sec, 10)

		switch rapid.IntRange(0, 3).Draw(rt, "spelling") {
		case 0:
			if sec >= 0 {
				text += "." + rapid.StringMatching(`[0-9]{1,3}`).Draw(rt, "fraction")
			}
		case 1:
			text += "e0"
		}

		var got struct {
			Exp *jwt.NumericDate `mapstructure:"exp"`
			Nbf jwt.NumericDate  `mapstructure:"nbf"`
			X   string           `mapstructure:"x"`
		}

		dec, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{
			Result: &got, DecodeHook: maphelpers.JSONNumberToJwtNumericDate(),
		})
		if err != nil {
			rt.Fatal(err)
		}

		n := json.Number(text)
		if err = dec.Decode(map[string]any{"exp": n, "nbf": n, "x": text}); err != nil {
			rt.Fatal(err)
		}

		c.NonTrivial(text)
		c.Sample(text)

		if got.Exp == nil || int64(*got.Exp) != sec || int64(got.Nbf) != sec || got.X != text {
			rt.Fatalf("%s becomes %s", text, vk.JS(got))
		}

		for _, bad := range []string{"", "x", "1x", "--1"} {
			if err = dec.Decode(map[string]any{"exp": json.Number(bad)}); err == nil {
				rt.Fatalf("%q becomes a date", bad)
			}
		}
	})
}

func TestC25_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		var got struct {
			Exp *jwt.NumericDate `mapstructure:"exp"`
		}

		kc := c()
		kc.NonTrivial("zero time")
		kc.Sample("exp -62135596800")

		dec, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{
			Result: &got, DecodeHook: maphelpers.JSONNumberToJwtNumericDate(),
		})
		if err == nil {
			err = dec.Decode(map[string]any{"exp": json.Number("-62135596800")})
		}

		if err != nil || got.Exp == nil || int64(*got.Exp) != -62135596800 {
			t.Fatalf("the zero time becomes %v (%v)", got.Exp, err)
		}
	})
}

// Package vk is the kit shared by all property checks: running a rapid property
// with a tier-dependent number of cases, and recording what the cases were.
package vk

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}

	return "quick"
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return Tier() == "thorough" }

// Seed is VERIF_SEED as the runner passed it (never 0).
func Seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil || s == 0 {
		return 1
	}

	return s
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Classes     map[string]int `json:"classes"`
	Distinct    int            `json:"distinct_nontrivial"`
	Failed      bool           `json:"failed"`
	Rule        string         `json:"rule"`
	distinct    map[[16]byte]struct{}
	samples     []string
}

var (
	mu    sync.Mutex
	stats = map[string]*subStats{}
)

// Case records what one generated case was.
type Case struct {
	nontrivial bool
	key        []string
	classes    map[string]bool
	sample     string
}

// Class counts the case under a label.
func (c *Case) Class(format string, args ...any) {
	c.classes[fmt.Sprintf(format, args...)] = true
}

// NonTrivial declares the case non-trivial; key is what distinguishes it from others.
func (c *Case) NonTrivial(key ...any) {
	c.nontrivial = true

	for _, k := range key {
		switch x := k.(type) {
		case []byte:
			c.key = append(c.key, string(x))
		case string:
			c.key = append(c.key, x)
		default:
			c.key = append(c.key, JS(k))
		}
	}
}

// Sample sets what is shown of this case in the evidence.
func (c *Case) Sample(v any) {
	switch x := v.(type) {
	case string:
		c.sample = x
	case []byte:
		c.sample = string(x)
	default:
		c.sample = JS(v)
	}

	if len(c.sample) > 700 {
		c.sample = c.sample[:700] + "..."
	}
}

// JS renders v as JSON for messages.
func JS(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}

	return string(b)
}

// Check runs one generated property; there is one per top-level test.
func Check(t *testing.T, rule string, quickN, thoroughN int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()

	{
		n := quickN
		if Thorough() {
			n = thoroughN
		}

		if s := os.Getenv("VERIF_SCALE"); s != "" {
			f, err := strconv.ParseFloat(s, 64)
			if err == nil {
				n = max(1, int(float64(n)*f))
			}
		}

		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			t.Fatal(err)
		}

		st := &subStats{Classes: map[string]int{}, distinct: map[[16]byte]struct{}{}, Rule: rule}

		mu.Lock()
		stats[t.Name()] = st
		mu.Unlock()

		defer func() {
			mu.Lock()
			defer mu.Unlock()

			st.Failed = t.Failed()
			st.Distinct = len(st.distinct)
		}()

		rapid.Check(t, func(rt *rapid.T) {
			c := &Case{classes: map[string]bool{}}

			prop(rt, c)

			mu.Lock()
			defer mu.Unlock()

			st.Evaluations++

			for k := range c.classes {
				st.Classes[k]++
			}

			if c.nontrivial {
				h := sha256.Sum256([]byte(strings.Join(c.key, "\x00")))

				var k [16]byte

				copy(k[:], h[:])

				if _, ok := st.distinct[k]; !ok {
					st.distinct[k] = struct{}{}
					if len(st.samples) < 4 || (len(st.distinct)%64 == 0 && len(st.samples) < 8) {
						s := c.sample
						if s == "" {
							s = strings.Join(c.key, " | ")
						}

						if len(s) > 700 {
							s = s[:700] + "..."
						}

						st.samples = append(st.samples, strings.ToValidUTF8(s, "?"))
					}
				}
			}
		})
	}
}

// Enum records an exhaustively enumerated (not random) part of a check.
func Enum(t *testing.T, rule string, f func(t *testing.T, c func() *Case)) {
	t.Helper()

	{
		st := &subStats{Classes: map[string]int{}, distinct: map[[16]byte]struct{}{}, Rule: rule}

		mu.Lock()
		stats[t.Name()] = st
		mu.Unlock()

		var cases []*Case

		f(t, func() *Case {
			c := &Case{classes: map[string]bool{}}
			cases = append(cases, c)

			return c
		})

		mu.Lock()
		defer mu.Unlock()

		for _, c := range cases {
			st.Evaluations++

			for k := range c.classes {
				st.Classes[k]++
			}

			if c.nontrivial {
				h := sha256.Sum256([]byte(strings.Join(c.key, "\x00")))

				var k [16]byte

				copy(k[:], h[:])
				st.distinct[k] = struct{}{}

				if len(st.samples) < 4 {
					s := c.sample
					if s == "" {
						s = strings.Join(c.key, " | ")
					}

					st.samples = append(st.samples, s)
				}
			}
		}

		st.Distinct = len(st.distinct)
		st.Failed = t.Failed()
	}
}

// Known reports a known finding: fails says whether the recorded input still fails.
func Known(t *testing.T, id string, fails func() bool) {
	t.Helper()

	if !fails() {
		return
	}

	out := os.Getenv("VERIF_KF")
	if out == "" {
		t.Logf("known finding %s reproduced", id)

		return
	}

	f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	if err != nil {
		t.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}

	defer f.Close()

	fmt.Fprintln(f, id)
}

// Main runs the tests and writes the statistics file named by VERIF_STATS.
func Main(m *testing.M) {
	code := m.Run()

	if out := os.Getenv("VERIF_STATS"); out != "" {
		type sub struct {
			*subStats
			Name    string   `json:"name"`
			Samples []string `json:"samples"`
		}

		var all []sub

		names := make([]string, 0, len(stats))
		for n := range stats {
			names = append(names, n)
		}

		sort.Strings(names)

		for _, n := range names {
			all = append(all, sub{subStats: stats[n], Name: n, Samples: stats[n].samples})
		}

		b, err := json.MarshalIndent(all, "", " ")
		if err == nil {
			err = os.WriteFile(out, b, 0o600)
		}

		if err != nil {
			fmt.Fprintln(os.Stderr, "vk: cannot write statistics:", err)
		}
	}

	os.Exit(code)
}

// Classes lists the labels of the case.
func (c *Case) Classes() []string {
	var out []string
	for k := range c.classes {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"
	"pgregory.net/rapid"

	afgjwt "github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// sdCase is a generated claims object with issuing options.
type sdCase struct {
	version    common.SDJWTVersion
	structured bool
	decoys     bool
	hash       crypto.Hash
	nonSD      []string
	always     []string
	recursive  []string
	claims     map[string]any
	iss        string
	kid        string
	key        *vk.Key
	world      *vk.World
	optNames   []string
}

var sdHashes = []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}

func sdJoin(path, key string) string {
	if path == "" {
		return key
	}

	return path + "." + key
}

// sdPaths lists the paths of all objects, arrays, array elements and leaves.
func sdPaths(path string, v any, out *[]string) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			p := sdJoin(path, k)
			*out = append(*out, p)
			sdPaths(p, e, out)
		}
	case []any:
		for i := range x {
			*out = append(*out, fmt.Sprintf("%s[%d]", path, i))
		}
	}
}

func drawSDClaims(rt *rapid.T, depth int) map[string]any {
	o := vk.JSONOpts{Depth: depth, MaxWidth: 4}
	if vk.Coin(rt, "few names", 3) { // the same names again at every level
		o.Names = rapid.SampledFrom([]string{"a", "b", "c", "d", "items"})
	}

	out := vk.Obj(o, 0).Draw(rt, "claims")

	// names that differ from registered ones only by letter case are claims like any other
	if vk.Coin(rt, "lookalike", 8) {
		out[vk.Pick(rt, "lookname", "EXP", "Nbf", "Iat", "AUD", "Iss", "SUB", "_SD", "_Sd_alg", "CNF")] = vk.JSON(vk.JSONOpts{Depth: 2, MaxWidth: 2}).Draw(rt, "lookvalue")
	}

	return out
}

func hasMember(v any, names ...string) bool {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			for _, n := range names {
				if k == n {
					return true
				}
			}

			if hasMember(e, names...) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if hasMember(e, names...) {
				return true
			}
		}
	}

	return false
}

func sample(rt *rapid.T, label string, from []string, maxN int) []string {
	if len(from) == 0 {
		return nil
	}

	n := rapid.IntRange(0, maxN).Draw(rt, label+"#")
	seen := map[string]bool{}

	var out []string

	for i := 0; i < n; i++ {
		s := rapid.SampledFrom(from).Draw(rt, label)
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}

	return out
}

func drawSD(rt *rapid.T) *sdCase {
	c := &sdCase{
		version:    vk.Pick(rt, "version", common.SDJWTVersionV2, common.SDJWTVersionV5),
		structured: rapid.Bool().Draw(rt, "structured"),
		decoys:     vk.Coin(rt, "decoys", 3),
		hash:       rapid.SampledFrom(sdHashes).Draw(rt, "hash"),
		claims:     drawSDClaims(rt, 3),
		iss:        "did:example:sdissuer",
	}

	var paths []string

	sdPaths("", c.claims, &paths)
	sort.Strings(paths)
	c.nonSD = sample(rt, "nonSD", paths, 3)

	if c.version == common.SDJWTVersionV5 {
		c.always = sample(rt, "always", paths, 2)
		c.recursive = sample(rt, "recursive", paths, 2)
	}

	// paths that name nothing, or something at another place
	if len(paths) > 0 && vk.Coin(rt, "strays", 3) {
		for _, l := range []*[]string{&c.nonSD, &c.always, &c.recursive} {
			if l != &c.nonSD && c.version != common.SDJWTVersionV5 || rapid.Bool().Draw(rt, "no stray") {
				continue
			}

			p := rapid.SampledFrom(paths).Draw(rt, "stray of")
			p = vk.Pick(rt, "stray", p[strings.LastIndex(p, ".")+1:], p[:strings.LastIndex(p, ".")+1], strings.SplitN(p, "[", 2)[0],
				strings.ToUpper(p), p+"."+p, "$."+p, "vc."+p, p+"[0]", p+"[1]", vk.Near(rt, "near path", p))
			*l = append(*l, p)
		}
	}

	c.key = vk.GetKey(vk.Pick(rt, "alg", vk.EdDSA, vk.ES256, vk.ES384), "a")
	c.kid = c.iss + "#k1"
	c.world = vk.NewWorld()
	c.world.AddDID(c.iss, vk.VM{Fragment: "k1", Key: c.key}, vk.VM{Fragment: "k2", Key: vk.GetKey(c.key.Kind, "c")})

	return c
}

func joseSigner(key *vk.Key, kid string, typ string) jose.Signer {
	p := afgjwt.SignParameters{KeyID: kid, JWTAlg: string(key.Kind)}
	if typ != "" {
		p.AdditionalHeaders = map[string]any{"typ": typ}
	}

	s, err := afgjwt.NewJOSESigner(p, key.Creator())
	if err != nil {
		panic(err)
	}

	return s
}

func (c *sdCase) opts(extra ...issuer.NewOpt) []issuer.NewOpt {
	out := []issuer.NewOpt{
		issuer.WithSDJWTVersion(c.version), issuer.WithStructuredClaims(c.structured),
		issuer.WithDecoyDigests(c.decoys), issuer.WithHashAlgorithm(c.hash),
	}

	if len(c.nonSD) > 0 {
		out = append(out, issuer.WithNonSelectivelyDisclosableClaims(c.nonSD))
	}

	if len(c.always) > 0 {
		out = append(out, issuer.WithAlwaysIncludeObjects(c.always))
	}

	if len(c.recursive) > 0 {
		out = append(out, issuer.WithRecursiveClaimsObjects(c.recursive))
	}

	return append(out, extra...)
}

func (c *sdCase) issue(rt *rapid.T, extra ...issuer.NewOpt) *issuer.SelectiveDisclosureJWT {
	tok, err := issuer.New(c.iss, c.claims, nil, joseSigner(c.key, c.kid, ""), c.opts(extra...)...)
	if err != nil {
		rt.Fatalf("issuing failed: %v\nclaims %s\n%s", err, vk.JS(c.claims), c.describe())
	}

	return tok
}

func (c *sdCase) describe() string {
	return fmt.Sprintf("version=%d structured=%v decoys=%v hash=%v nonSD=%q always=%q recursive=%q claims=%s",
		c.version, c.structured, c.decoys, c.hash, c.nonSD, c.always, c.recursive, vk.JS(c.claims))
}

// model lists the paths (as segments) that the options make selectively disclosable.
func (c *sdCase) model() map[string]bool {
	out := map[string]bool{}
	in := func(l []string, p string) bool {
		for _, x := range l {
			if x == p {
				return true
			}
		}

		return false
	}

	var walk func(seg, path string, obj map[string]any, plain bool)

	walk = func(seg, path string, obj map[string]any, plain bool) {
		for k, v := range obj {
			p, s := sdJoin(path, k), seg+"\x00"+k
			ignored := in(c.nonSD, p)
			m, isMap := v.(map[string]any)
			arr, isArr := v.([]any)

			if c.version == common.SDJWTVersionV2 {
				switch {
				case isMap && c.structured:
					walk(s, p, m, false)
				case ignored:
				default:
					out[s] = true
				}

				continue
			}

			keep := in(c.always, p)

			switch {
			case isMap && ignored:
			case isMap && in(c.recursive, p):
				walk(s, p, m, false)

				if !keep {
					out[s] = true
				}
			case isMap && (keep || c.structured):
				walk(s, p, m, false)
			case isMap:
				walk(s, p, m, true)
				out[s] = true
			case isArr && ignored:
			case isArr:
				for i := range arr {
					if !in(c.nonSD, fmt.Sprintf("%s[%d]", p, i)) {
						out[fmt.Sprintf("%s\x01%d", s, i)] = true
					}
				}

				if !keep && !c.structured {
					out[s] = true
				}
			case ignored || plain:
			default:
				out[s] = true
			}
		}
	}

	walk("", "", c.claims, false)

	return out
}

// sdNode is one disclosure found while walking a token independently of the library.
type sdNode struct {
	enc    string
	digest string
	salt   string
	seg    string // path in segments: \x00name or \x01index
	parent *sdNode
	arr    []any
}

// refDigest hashes a disclosure.
func refDigest(h crypto.Hash, s string) string {
	w := h.New()
	w.Write([]byte(s))

	return base64.RawURLEncoding.EncodeToString(w.Sum(nil))
}

// walkSD finds for every disclosure its place in the token; problems are returned as an error.
func walkSD(payload map[string]any, disclosures []string, h crypto.Hash) (nodes []*sdNode, unused, undisclosed int, err error) {
	byDigest := map[string]*sdNode{}

	for _, d := range disclosures {
		b, e := base64.RawURLEncoding.DecodeString(d)
		if e != nil {
			return nil, 0, 0, fmt.Errorf("disclosure %q: %w", d, e)
		}

		v, e := vk.DecodeJSON(b)
		if e != nil {
			return nil, 0, 0, fmt.Errorf("disclosure %q: %w", b, e)
		}

		arr, ok := v.([]any)
		if !ok || len(arr) < 2 || len(arr) > 3 {
			return nil, 0, 0, fmt.Errorf("disclosure %q is no array of 2 or 3", b)
		}

		salt, ok := arr[0].(string)
		if !ok {
			return nil, 0, 0, fmt.Errorf("disclosure %q: salt", b)
		}

		n := &sdNode{enc: d, digest: refDigest(h, d), salt: salt, arr: arr}
		if byDigest[n.digest] != nil {
			return nil, 0, 0, fmt.Errorf("disclosure %q twice", b)
		}

		byDigest[n.digest] = n
		nodes = append(nodes, n)
	}

	seen := map[string]bool{}
	use := func(dg string, want int, seg string, parent *sdNode) (*sdNode, error) {
		if seen[dg] {
			return nil, fmt.Errorf("digest %s twice", dg)
		}

		seen[dg] = true
		n := byDigest[dg]

		if n == nil {
			undisclosed++

			return nil, nil
		}

		if len(n.arr) != want {
			return nil, fmt.Errorf("disclosure %s has %d elements", n.enc, len(n.arr))
		}

		n.parent = parent
		n.seg = seg

		if want == 3 {
			name, ok := n.arr[1].(string)
			if !ok {
				return nil, fmt.Errorf("name of %s", n.enc)
			}

			n.seg = seg + "\x00" + name
		}

		return n, nil
	}

	var walk func(seg string, v any, parent *sdNode) error

	walk = func(seg string, v any, parent *sdNode) error {
		switch x := v.(type) {
		case map[string]any:
			if l, ok := x["_sd"].([]any); ok {
				for _, d := range l {
					n, e := use(fmt.Sprint(d), 3, seg, parent)
					if e != nil {
						return e
					}

					if n != nil {
						if e := walk(n.seg, n.arr[2], n); e != nil {
							return e
						}
					}
				}
			}

			for k, e := range x {
				if k == "_sd" {
					continue
				}

				if err := walk(seg+"\x00"+k, e, parent); err != nil {
					return err
				}
			}
		case []any:
			for i, e := range x {
				m, ok := e.(map[string]any)
				if !ok || len(m) != 1 || m["..."] == nil {
					continue
				}

				n, er := use(fmt.Sprint(m["..."]), 2, fmt.Sprintf("%s\x01%d", seg, i), parent)
				if er != nil {
					return er
				}

				if n != nil {
					if er := walk(n.seg, n.arr[1], n); er != nil {
						return er
					}
				}
			}
		}

		return nil
	}

	if err := walk("", payload, nil); err != nil {
		return nil, 0, 0, err
	}

	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].seg < nodes[j].seg })

	for _, n := range nodes {
		if n.seg == "" {
			unused++
		}
	}

	return nodes, unused, undisclosed, nil
}

type withheldArray struct{}

// expectSD is the original value with the withheld places left out.
func expectSD(seg string, v any, hidden map[string]bool) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}

		for k, e := range x {
			s := seg + "\x00" + k
			if hidden[s] {
				continue
			}

			out[k] = expectSD(s, e, hidden)
		}

		return out
	case []any:
		out := []any{}

		for i, e := range x {
			s := fmt.Sprintf("%s\x01%d", seg, i)
			if hidden[s] {
				continue
			}

			out = append(out, expectSD(s, e, hidden))
		}

		if len(out) == 0 && len(x) > 0 {
			return withheldArray{}
		}

		return out
	default:
		return v
	}
}

// sdDiff compares; an array all of whose elements are withheld may be absent, null or empty.
func sdDiff(want, got map[string]any) string { return sdDiffClear(want, got, false) }

// sdDiffClear can disregard empty objects.
func sdDiffClear(want, got map[string]any, clearObjects bool) string {
	var fix func(w, g any) (any, any)

	fix = func(w, g any) (any, any) {
		switch x := w.(type) {
		case map[string]any:
			y, ok := g.(map[string]any)
			if !ok {
				return w, g
			}

			wo, gout := map[string]any{}, map[string]any{}
			for k, e := range y {
				gout[k] = e
			}

			for k, e := range x {
				if _, ok := e.(withheldArray); ok {
					if a, isArr := y[k].([]any); y[k] == nil || (isArr && len(a) == 0) {
						delete(gout, k)

						continue
					}

					wo[k] = "withheld array"

					continue
				}

				h, ok := y[k]
				if !ok {
					wo[k] = e

					continue
				}

				wo[k], gout[k] = fix(e, h)
			}

			return wo, gout
		case []any:
			return w, g // array elements are never hidden in parts
		default:
			return w, g
		}
	}

	w, g := fix(want, got)
	if clearObjects {
		w, g = clearEmptyRef(w), clearEmptyRef(g)
	}

	return vk.Diff(w, g)
}

func hiddenSet(nodes []*sdNode, chosen map[*sdNode]bool) map[string]bool {
	out := map[string]bool{}

	for _, n := range nodes {
		if !chosen[n] {
			out[n.seg] = true
		}
	}

	return out
}

func segText(s string) string {
	return strings.NewReplacer("\x00", "/", "\x01", "#").Replace(s)
}

func without(m map[string]any, names ...string) map[string]any {
	out := map[string]any{}

	for k, v := range m {
		out[k] = v
	}

	for _, n := range names {
		delete(out, n)
	}

	return out
}

func payloadOf(tok string) map[string]any {
	_, p, _, err := vk.SplitJWS(tok)
	if err != nil {
		panic(err)
	}

	v, err := vk.DecodeJSON(p)
	if err != nil {
		panic(err)
	}

	return v.(map[string]any)
}

var _ = json.Marshal

// lookupSeg finds the value at a segment path.
func lookupSeg(v any, seg string) (any, bool) {
	for seg != "" {
		kind := seg[0]
		rest := seg[1:]
		end := strings.IndexAny(rest, "\x00\x01")

		if end < 0 {
			end = len(rest)
		}

		name := rest[:end]
		seg = rest[end:]

		if kind == 0 {
			m, ok := v.(map[string]any)
			if !ok {
				return nil, false
			}

			if v, ok = m[name]; !ok {
				return nil, false
			}

			continue
		}

		a, ok := v.([]any)

		var i int

		if _, err := fmt.Sscan(name, &i); err != nil || !ok || i >= len(a) {
			return nil, false
		}

		v = a[i]
	}

	return v, true
}

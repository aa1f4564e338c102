package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

type ldLoader = ld.DocumentLoader

func ldOpts() []processor.Opts {
	return []processor.Opts{processor.WithDocumentLoader(vk.Loader())}
}

// diSigner is a Data Integrity signer that signs with the key whatever the verification method.
func diSigner(w *vk.World, key *vk.Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: vk.Loader(),
			SignerGetter: ecdsa2019.WithStaticSigner(key)}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: vk.Loader(),
			SignerGetter: eddsa2022.WithStaticSigner(key)}))
	if err != nil {
		panic(err)
	}

	return s
}

// signDI adds a Data Integrity proof by the library's signer.
func signDI(rt *rapid.T, doc map[string]any, signer c05VM, w *vk.World) []byte {
	suite := "ecdsa-rdfc-2019"
	if signer.key.Kind == vk.EdDSA {
		suite = "eddsa-rdfc-2022"
	}

	out, err := diSigner(w, signer.key).AddProof(vk.MustJSON(doc), &models.ProofOptions{
		Purpose: "assertionMethod", VerificationMethodID: signer.id, ProofType: models.DataIntegrityProof,
		SuiteType: suite, Created: time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC),
	})
	if err != nil {
		rt.Fatal(err)
	}

	return out
}

// canonical is the RDF dataset a JSON-LD document means, in canonical form.
func canonical(doc map[string]any, mda ld.MessageDigestAlgorithm) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("no JSON-LD: %v", r)
		}
	}()

	o := ld.NewJsonLdOptions("")
	o.ProcessingMode = ld.JsonLd_1_1
	o.Algorithm = ld.AlgorithmURDNA2015
	o.Format = "application/n-quads"
	o.ProduceGeneralizedRdf = true
	o.DocumentLoader = vk.Loader()

	if mda != "" {
		o.MessageDigestAlgorithm = mda
	}

	v, err := ld.NewJsonLdProcessor().Normalize(vk.Clone(doc), o)
	if err != nil {
		return "", err
	}

	s, ok := v.(string)
	if !ok {
		return "", fmt.Errorf("unexpected %T", v)
	}

	return s, nil
}

// mutate changes one thing somewhere in a JSON document; it returns the changed copy and what was done.
func mutate(rt *rapid.T, doc map[string]any) (map[string]any, string) {
	out := vk.CloneMap(doc)

	type spot struct {
		path  string
		obj   map[string]any
		arr   []any
		key   string
		index int
	}

	var spots []spot

	var walk func(path string, v any)

	walk = func(path string, v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, k := range vk.SortedKeys(x) {
				if path == "" && k == "proof" {
					continue
				}

				spots = append(spots, spot{path: path + "/" + k, obj: x, key: k})
				walk(path+"/"+k, x[k])
			}
		case []any:
			for i := range x {
				spots = append(spots, spot{path: fmt.Sprintf("%s/%d", path, i), arr: x, index: i})
				walk(fmt.Sprintf("%s/%d", path, i), x[i])
			}
		}
	}

	walk("", out)

	s := spots[rapid.IntRange(0, len(spots)-1).Draw(rt, "spot")]

	get := func() any {
		if s.obj != nil {
			return s.obj[s.key]
		}

		return s.arr[s.index]
	}
	set := func(v any) {
		if s.obj != nil {
			s.obj[s.key] = v
		} else {
			s.arr[s.index] = v
		}
	}

	op := vk.Pick(rt, "op", "value", "value", "value", "delete", "add", "wrap", "null", "duplicate", "swap", "rename")

	switch op {
	case "value":
		switch x := get().(type) {
		case string:
			set(vk.Pick(rt, "newstr", x+"x", x+" ", strings.ToUpper(x), "", vk.Word().Draw(rt, "w")))
		case float64:
			set(vk.Pick(rt, "newnum", x+1, -x, x/2))
		case bool:
			set(!x)
		case nil:
			set("x")
		case map[string]any:
			set(map[string]any{})
		case []any:
			set(append(vk.Clone(x).([]any), "x")) //nolint:forcetypeassert
		}
	case "delete":
		if s.obj != nil {
			delete(s.obj, s.key)
		} else {
			s.arr[s.index] = vk.Word().Draw(rt, "w")
		}
	case "add":
		k := vk.Pick(rt, "addkey", "t0", "t1", "t7", "unknownmember", "id", "type", "@graph", "@type", "@included")
		v := vk.Pick[any](rt, "addval", "x", "https://other.example/x", float64(1), map[string]any{"t1": "y"},
			[]any{"x"}, map[string]any{"id": "https://other.example/z", "t2": "q"})

		if m, ok := get().(map[string]any); ok {
			m[k] = v
		} else {
			out[k] = v
		}
	case "wrap":
		set([]any{get()})
	case "null":
		set(nil)
	case "duplicate":
		set([]any{get(), vk.Clone(get())})
	case "swap":
		if a, ok := get().([]any); ok && len(a) > 1 {
			a[0], a[len(a)-1] = a[len(a)-1], a[0]
		} else {
			set([]any{get(), "x"})
		}
	case "rename":
		if s.obj != nil {
			v := s.obj[s.key]
			delete(s.obj, s.key)
			s.obj[vk.Pick(rt, "newkey", "t3", "t9", s.key+"x", "description")] = v
		}
	}

	return out, op + " " + s.path
}

// shuffled is the JSON text of the document with members in another order and different spacing.
func shuffled(rt *rapid.T, v any) string {
	sp := vk.Pick(rt, "space", "", " ", "\n\t")

	switch x := v.(type) {
	case map[string]any:
		keys := rapid.Permutation(vk.SortedKeys(x)).Draw(rt, "order")

		var parts []string
		for _, k := range keys {
			parts = append(parts, vk.JS(k)+sp+":"+sp+shuffled(rt, x[k]))
		}

		return "{" + sp + strings.Join(parts, ","+sp) + "}"
	case []any:
		var parts []string
		for _, e := range x {
			parts = append(parts, shuffled(rt, e))
		}

		return "[" + strings.Join(parts, sp+",") + sp + "]"
	}

	return vk.JS(v)
}

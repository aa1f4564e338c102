package props

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// uniqueIDs gives every node of the document an identifier of its own.
func uniqueIDs(v any, n *int) {
	switch t := v.(type) {
	case map[string]any:
		for _, k := range vk.SortedKeys(t) {
			s, isText := t[k].(string)
			if isText && (k == "id" || k == "tRef" || k == "issuer" || k == "credentialSubject") {
				*n++
				t[k] = fmt.Sprintf("%s/n%d", strings.SplitN(s, "#", 2)[0], *n)

				if strings.HasPrefix(s, "did:") {
					t[k] = fmt.Sprintf("did:ex:n%d", *n)
				}

				continue
			}

			uniqueIDs(t[k], n)
		}
	case []any:
		for _, x := range t {
			uniqueIDs(x, n)
		}
	}
}

// reveal draws a frame that selects some members of the object, and what the object looks like then.
func reveal(rt *rapid.T, o map[string]any, must ...string) (frame, left map[string]any) {
	frame, left = map[string]any{"@explicit": true}, map[string]any{}

	if id, ok := o["id"]; ok {
		left["id"] = id
	}

	if typ, ok := o["type"]; ok {
		left["type"] = typ
		frame["type"] = typ
	}

	for _, k := range vk.SortedKeys(o) {
		if k == "id" || k == "type" || k == "@context" || k == "proof" {
			continue
		}

		if !contains(must, k) && !vk.Coin(rt, "reveal "+k, 2) {
			continue
		}

		if sub, ok := o[k].(map[string]any); ok && vk.Coin(rt, "part of "+k, 2) {
			f, l := reveal(rt, sub)

			// a frame matches through one of its members
			if len(f) > 1 {
				frame[k], left[k] = f, l

				continue
			}
		}

		frame[k], left[k] = map[string]any{}, vk.Clone(o[k])
	}

	return frame, left
}

// withoutBlankIDs removes the identifiers that stand for blank nodes.
func withoutBlankIDs(v any) any {
	switch t := v.(type) {
	case map[string]any:
		out := map[string]any{}

		for k, x := range t {
			if s, ok := x.(string); ok && k == "id" && strings.HasPrefix(s, "urn:bnid:") {
				continue
			}

			out[k] = withoutBlankIDs(x)
		}

		return out
	case []any:
		out := make([]any, len(t))
		for i, x := range t {
			out[i] = withoutBlankIDs(x)
		}

		return out
	default:
		return v
	}
}

// blankLinks counts the statements that link two nodes without identifiers.
func blankLinks(doc map[string]any) int {
	s, err := canonical(doc, "")
	if err != nil {
		return 0
	}

	n := 0

	for _, row := range strings.Split(s, "\n") {
		f := strings.SplitN(row, " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "_:") && strings.HasPrefix(f[2], "_:") {
			n++
		}
	}

	return n
}

type bbsSetup struct {
	w   *vk.World
	key *vk.Key
	vm  string
}

func (s *bbsSetup) creator() *verifiable.BBSProofCreator {
	return &verifiable.BBSProofCreator{
		ProofDerivation: bbs12381g2pub.New(), VerificationMethodResolver: vermethod.NewVDRResolver(s.w),
	}
}

func signBBS(rt *rapid.T, cred *verifiable.Credential, key *vk.Key, vm string) {
	now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	err := cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
		SignatureType: "BbsBlsSignature2020", KeyType: key.KMSType, SignatureRepresentation: verifiable.SignatureProofValue,
		ProofCreator: key.Creator(), VerificationMethod: vm, Created: &now,
	}, ldOpts()...)
	if err != nil {
		rt.Fatalf("signing: %v", err)
	}
}

// TestC23_Derive signs credentials with a BBS+ suite, derives proofs for drawn selections and checks
// what they show and that they verify, unlike anything altered.
func TestC23_Derive(t *testing.T) {
	vk.Check(t, "the selection leaves something out", 160, 3000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		key := vk.GetKey(vk.BBS, "c23")
		w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: key},
			vk.VM{Fragment: "bbs2", Type: "Bls12381G2Key2020", Bytes: true, Key: vk.GetKey(vk.BBS, "c23b")},
			vk.VM{Fragment: "ed", Type: "JsonWebKey2020", Key: vk.GetKey(vk.EdDSA, "c23")})
		s := &bbsSetup{w: w, key: key, vm: issDID + "#bbs"}

		doc, v := credGen{LD: true, Valid: true, NoSchema: true}.draw(rt)
		doc = vk.CloneMap(doc)
		if _, ok := doc["id"]; !ok {
			doc["id"] = "did:ex:cred"
		}

		n := 0
		uniqueIDs(doc, &n)

		// a subject of an id alone becomes a text when it is framed, which data model 2 does not allow
		for _, x := range asList(doc["credentialSubject"]) {
			if o, ok := x.(map[string]any); ok && len(o) == 1 {
				o["t0"] = "x"
			}
		}

		if o, ok := doc["issuer"].(map[string]any); ok {
			o["id"] = issDID
		} else {
			doc["issuer"] = issDID
		}

		doc["@context"] = append(asList(doc["@context"]), ctxBBS)
		data := mustJSON(rt, doc)

		cred, err := verifiable.ParseCredential(data, parseOpts(verifiable.WithDisabledProofCheck())...)
		if err != nil {
			rt.Fatalf("parsing: %v\n%s", err, data)
		}

		signBBS(rt, cred, key, s.vm)

		more := vk.Pick(rt, "proofs", 1, 1, 1, 2)
		if more > 1 {
			signBBS(rt, cred, vk.GetKey(vk.BBS, "c23b"), issDID+"#bbs2")
		}

		must := []string{"issuer", "credentialSubject"}
		if v == 1 {
			must = append(must, "issuanceDate")
		}

		frame, left := reveal(rt, doc, must...)
		if o, ok := left["credentialSubject"].(map[string]any); ok && (len(o) == 1 && o["id"] != nil) {
			frame["credentialSubject"], left["credentialSubject"] = map[string]any{}, vk.Clone(doc["credentialSubject"])
		}

		// a type that another node has too would select that node as well
		frame["type"] = "VerifiableCredential"
		frame["@context"], left["@context"] = doc["@context"], doc["@context"]

		nonce := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "nonce")

		before, _ := cred.MarshalJSON()
		frameBefore := vk.JS(frame)

		derived, err := cred.GenerateBBSSelectiveDisclosure(frame, nonce, s.creator(), parseOpts()...)

		links := blankLinks(doc)
		if links > 0 {
			// known finding: see TestC23_Findings
			c.Class("two blank nodes linked")

			return
		}

		if !vk.Same(vk.Norm(left), vk.Norm(doc)) {
			c.NonTrivial(doc, frame)
		}

		_, hasID := doc["id"]
		c.Class(fmt.Sprintf("v%d, id %v, %d proofs, blank links %d", v, hasID, more, min(links, 2)))
		c.Sample(map[string]any{"doc": doc, "frame": frame, "nonce": nonce, "err": fmt.Sprint(err)})

		if err != nil {
			rt.Fatalf("deriving: %v\n%s\nframe %s", err, data, vk.JS(frame))
		}

		if after, _ := cred.MarshalJSON(); string(after) != string(before) {
			rt.Fatalf("deriving changed the credential: %s -> %s", before, after)
		}

		if vk.JS(frame) != frameBefore {
			rt.Fatalf("deriving changed the reveal document: %s -> %s", frameBefore, vk.JS(frame))
		}

		out, err := derived.MarshalJSON()
		if err != nil {
			rt.Fatal(err)
		}

		// what it shows
		shown := objOf(rt, out)
		proofs := asList(shown["proof"])
		bare := vk.CloneMap(shown)
		delete(bare, "proof")

		got, err := canonical(withoutBlankIDs(bare).(map[string]any), "")
		if err != nil {
			rt.Fatal(err)
		}

		want, err := canonical(left, "")
		if err != nil {
			rt.Fatal(err)
		}

		if got != want {
			rt.Fatalf("the derived credential shows\n%s\nselected was\n%s\nof %s\nframe %s", got, want, data, vk.JS(frame))
		}

		// that it verifies
		check := func(doc map[string]any, w *vk.World) error {
			_, e := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithProofChecker(w.Checker()))...)

			return e
		}

		if e := check(shown, w); e != nil {
			rt.Fatalf("the derived credential does not verify: %v\n%s\nfrom %s\nframe %s", e, out, data, vk.JS(frame))
		}

		if len(proofs) != more {
			rt.Fatalf("%d derived proofs of %d signatures", len(proofs), more)
		}

		for i, p := range asList(objOf(rt, before)["proof"]) {
			for _, k := range []string{"verificationMethod", "proofPurpose", "created"} {
				if was, is := p.(map[string]any)[k], proofs[i].(map[string]any)[k]; was != is {
					rt.Fatalf("%s of the %d. derived proof is %v, that of the signature %v", k, i+1, is, was)
				}
			}
		}

		for _, p := range proofs {
			if x := p.(map[string]any)["nonce"]; x != base64.StdEncoding.EncodeToString(nonce) {
				rt.Fatalf("nonce %v in the derived proof, given %x", x, nonce)
			}
		}

		// that altered ones do not
		alt := vk.CloneMap(shown)
		ps := asList(alt["proof"])
		p := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "which proof")].(map[string]any)
		alt["proof"] = ps
		w2 := w

		what := vk.Pick(rt, "alteration", "document", "document", "document", "nonce", "proof", "method", "created", "key", "more", "appended", "appended")

		switch what {
		case "document":
			bare, how := mutate(rt, vk.CloneMap(bare))
			what += " " + how

			a, err := canonical(withoutBlankIDs(bare).(map[string]any), "")
			if err != nil || a == got {
				return
			}

			for k := range alt {
				if k != "proof" {
					delete(alt, k)
				}
			}

			for k, x := range bare {
				if k != "proof" {
					alt[k] = x
				}
			}
		case "nonce":
			b := append([]byte{}, nonce...)
			if len(b) > 0 && rapid.Bool().Draw(rt, "flip") {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			} else {
				b = append(b, 1)
			}

			p["nonce"] = base64.StdEncoding.EncodeToString(b)
		case "proof":
			b, e := base64.StdEncoding.DecodeString(p["proofValue"].(string))
			if e != nil {
				rt.Fatalf("proofValue: %v", e)
			}

			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			p["proofValue"] = base64.StdEncoding.EncodeToString(b)
		case "method":
			p["verificationMethod"] = map[any]string{issDID + "#bbs": issDID + "#bbs2", issDID + "#bbs2": issDID + "#bbs"}[p["verificationMethod"]]
		case "created":
			p["created"] = "2020-01-02T03:04:06Z"
		case "key":
			w2 = vk.NewWorld()
			w2.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: vk.GetKey(vk.BBS, "c23z")},
				vk.VM{Fragment: "bbs2", Type: "Bls12381G2Key2020", Bytes: true, Key: vk.GetKey(vk.BBS, "c23z")})
		case "appended":
			// a statement that comes after all revealed ones
			old := restored(rt, bare)

			var cand []map[string]any

			walkObjects(bare, func(path []any) {
				for _, term := range []string{"t9", "t11", "tDate", "type"} {
					m := vk.CloneMap(bare)

					o := objectAt(m, path)
					if _, has := o[term]; has {
						continue
					}

					o[term] = map[string]any{"tDate": "2099-01-01T00:00:00Z", "type": "T3"}[term]
					if o[term] == nil {
						o[term] = "zzz"
					}

					if a, e := canonical(m, ""); e == nil && a != "" && strings.HasPrefix(restored(rt, m), old) && a != got {
						cand = append(cand, m)
					}
				}
			})

			if len(cand) == 0 {
				return
			}

			m := rapid.SampledFrom(cand).Draw(rt, "appended")
			m["proof"] = alt["proof"]
			alt = m

			if rapid.Bool().Draw(rt, "claim revealed") {
				// the proof claims to reveal more messages than were signed
				for _, x := range ps {
					p := x.(map[string]any)

					b, e := base64.StdEncoding.DecodeString(p["proofValue"].(string))
					if e != nil {
						rt.Fatal(e)
					}

					if total := int(b[0])<<8 | int(b[1]); total%8 != 7 {
						b[2] |= 1 << 7
					}

					p["proofValue"] = base64.StdEncoding.EncodeToString(b)
				}
			}
		case "more":
			// a member that was left out, put back
			for _, k := range vk.SortedKeys(doc) {
				if _, ok := alt[k]; !ok {
					alt[k] = doc[k]
				}
			}

			bare := vk.CloneMap(alt)
			delete(bare, "proof")

			if a, e := canonical(withoutBlankIDs(bare).(map[string]any), ""); e != nil || a == got {
				return
			}
		}

		c.Class("altered: " + strings.SplitN(what, " ", 2)[0])

		if check(alt, w2) == nil {
			rt.Fatalf("an altered (%s) derived credential verifies: %s\nderived %s", what, vk.JS(alt), out)
		}

		// and the signed credential itself still verifies
		if e := check(objOf(rt, before), w); e != nil {
			rt.Fatalf("the signed credential does not verify: %v\n%s", e, before)
		}
	})
}

func objOf(rt *rapid.T, b []byte) map[string]any {
	v, err := vk.DecodeJSON(b)
	if err != nil {
		rt.Fatal(err)
	}

	m, ok := v.(map[string]any)
	if !ok {
		rt.Fatalf("not an object: %s", b)
	}

	return m
}

// restored gives the sorted statements of a derived document with its blank nodes put back.
func restored(rt *rapid.T, doc map[string]any) string {
	out, err := canonical(doc, "")
	if err != nil {
		return "?"
	}

	rows := strings.SplitAfter(out, "\n")
	for i, r := range rows {
		rows[i] = bnid.ReplaceAllString(r, "$1")
	}

	sort.Strings(rows)

	return strings.Join(rows, "")
}

var bnid = regexp.MustCompile(`<urn:bnid:(_:c14n[0-9]+)>`)

// walkObjects calls f with the path of every object in the document.
func walkObjects(doc any, f func(path []any)) {
	var walk func(v any, path []any)

	walk = func(v any, path []any) {
		path = path[:len(path):len(path)]

		switch t := v.(type) {
		case map[string]any:
			f(path)

			for _, k := range vk.SortedKeys(t) {
				if k != "@context" {
					walk(t[k], append(path, k))
				}
			}
		case []any:
			for i, x := range t {
				walk(x, append(path, i))
			}
		}
	}

	walk(doc, nil)
}

func objectAt(doc map[string]any, path []any) map[string]any {
	var v any = doc

	for _, k := range path {
		switch t := v.(type) {
		case map[string]any:
			v = t[k.(string)] //nolint:forcetypeassert
		case []any:
			v = t[k.(int)] //nolint:forcetypeassert
		}
	}

	return v.(map[string]any) //nolint:forcetypeassert
}

// deriveFixed signs the document, derives a proof for the frame and verifies it.
func deriveFixed(doc, frame map[string]any) (string, error) {
	w := vk.NewWorld()
	key := vk.GetKey(vk.BBS, "c23")
	w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: key})
	s := &bbsSetup{w: w, key: key, vm: issDID + "#bbs"}
	now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	cred, err := verifiable.ParseCredential(vk.MustJSON(doc), parseOpts(verifiable.WithDisabledProofCheck())...)
	if err != nil {
		return "", err
	}

	err = cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
		SignatureType: "BbsBlsSignature2020", KeyType: key.KMSType, SignatureRepresentation: verifiable.SignatureProofValue,
		ProofCreator: key.Creator(), VerificationMethod: s.vm, Created: &now,
	}, ldOpts()...)
	if err != nil {
		return "", err
	}

	derived, err := cred.GenerateBBSSelectiveDisclosure(frame, []byte("n"), s.creator(), parseOpts()...)
	if err != nil {
		return "", err
	}

	out, err := derived.MarshalJSON()
	if err != nil {
		return "", err
	}

	_, err = verifiable.ParseCredential(out, parseOpts(verifiable.WithProofChecker(w.Checker()))...)

	return string(out), err
}

func fixedBBSDoc(id string, subject map[string]any) (doc, frame map[string]any) {
	doc = map[string]any{
		"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL, ctxBBS}, "type": []any{"VerifiableCredential"},
		"issuer": issDID, "issuanceDate": "2020-01-02T03:04:05Z", "credentialSubject": subject,
	}
	if id != "" {
		doc["id"] = id
	}

	return doc, map[string]any{
		"@context": doc["@context"], "type": "VerifiableCredential", "@explicit": true, "issuer": map[string]any{},
		"issuanceDate": map[string]any{}, "credentialSubject": map[string]any{},
	}
}

// TestC23_Regressions has one credential with many blank nodes, whose statements change order with the
// names of the nodes.
func TestC23_Regressions(t *testing.T) {
	vk.Enum(t, "every input", func(t *testing.T, c func() *vk.Case) {
		for _, n := range []int{0, 1, 2, 3, 11} {
			subject := map[string]any{"id": "did:ex:sub", "t0": "a"}

			var list []any
			for i := 0; i < n; i++ {
				list = append(list, map[string]any{"t1": fmt.Sprint("x", i), "t2": "y"})
			}

			if n > 0 {
				subject["t3"] = list
			}

			doc, frame := fixedBBSDoc("did:ex:cred", subject)
			kc := c()
			kc.NonTrivial(doc)
			kc.Sample(doc)

			if _, err := deriveFixed(doc, frame); err != nil {
				t.Fatalf("%d blank nodes: %v", n, err)
			}
		}
	})
}

func TestC23_Findings(t *testing.T) {
	vk.Known(t, "credential-without-id", func() bool {
		_, err := deriveFixed(fixedBBSDoc("", map[string]any{"id": "did:ex:sub", "t0": "a"}))

		return err != nil
	})
	vk.Known(t, "linked-blank-nodes", func() bool {
		out, err := deriveFixed(fixedBBSDoc("did:ex:cred", map[string]any{
			"t0": "b", "t2": "e0", "t1": map[string]any{"t1": "leaf"},
		}))

		return err != nil || !strings.Contains(out, "leaf")
	})
}

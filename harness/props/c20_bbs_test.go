package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// drawMemberPath picks a member at any depth, through objects only.
func drawMemberPath(rt *rapid.T, o map[string]any) pePath {
	var out pePath

	for {
		var names []string

		for _, k := range vk.SortedKeys(o) {
			if k != "@context" && k != "proof" {
				names = append(names, k)
			}
		}

		k := vk.Pick(rt, "member", names...)
		out = append(out, peSeg{name: k})

		sub, ok := o[k].(map[string]any)
		if !ok || len(sub) == 0 || vk.Coin(rt, "whole", 5) {
			return out
		}

		o = sub
	}
}

// revealedDoc is the part of a document that the places and everything that comes along with them make up:
// nodes keep their ids and types.
func revealedDoc(doc map[string]any, locs []string) map[string]any {
	out := limitedDoc(doc, locs, nil)

	// back to the form of the source
	if l, ok := out["credentialSubject"].([]any); ok && len(l) == 1 {
		if _, isList := doc["credentialSubject"].([]any); !isList {
			out["credentialSubject"] = l[0]
		}
	}

	var complete func(part, full map[string]any)

	complete = func(part, full map[string]any) {
		for _, k := range []string{"id", "type"} {
			if v, ok := full[k]; ok {
				part[k] = v
			}
		}

		for k, v := range part {
			p, ok := v.(map[string]any)
			f, is := full[k].(map[string]any)

			if ok && is {
				complete(p, f)
			}
		}
	}

	out = vk.CloneMap(out)
	complete(out, doc)

	return out
}

// TestC20_BBS: credentials with a BBS+ signature, of which a presentation shows a part with a derived proof.
func TestC20_BBS(t *testing.T) {
	vk.Check(t, "the presentation leaves something of the credential out", 350, 6000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		key := vk.GetKey(vk.BBS, "c23")
		w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: key})
		s := &bbsSetup{w: w, key: key, vm: issDID + "#bbs"}

		doc, _ := credGen{LD: true, Valid: true, NoSchema: true, Version: 1}.draw(rt)
		doc = vk.CloneMap(doc)
		doc["id"] = "did:ex:cred"

		n := 0
		uniqueIDs(doc, &n)

		sub, ok := doc["credentialSubject"].(map[string]any)
		if !ok {
			return
		}

		sub["id"] = "did:ex:subject"
		if len(sub) == 1 {
			sub["t0"] = "x"
		}

		if o, ok := doc["issuer"].(map[string]any); ok {
			o["id"] = issDID
		} else {
			doc["issuer"] = issDID
		}

		if vk.Coin(rt, "list of subjects", 6) {
			doc["credentialSubject"] = []any{sub}
		}

		doc["@context"] = append(asList(doc["@context"]), ctxBBS)

		if blankLinks(doc) > 0 {
			return
		}

		data := mustJSON(rt, doc)

		cred, err := verifiable.ParseCredential(data, parseOpts(verifiable.WithDisabledProofCheck())...)
		if err != nil {
			rt.Fatalf("parsing: %v\n%s", err, data)
		}

		signBBS(rt, cred, key, s.vm)

		var (
			fields []any
			must   []string
		)

		mode := vk.Pick(rt, "mode", "fields", "fields", "fields", "frame", "predicate")
		_, subjectList := doc["credentialSubject"].([]any)

		for i, m := 0, rapid.IntRange(1, 3).Draw(rt, "fields"); i < m; i++ {
			p := drawMemberPath(rt, doc)

			// parts of other objects would not make a valid credential, and it is checked when it is only reduced
			if !subjectList && (mode == "predicate" || vk.Coin(rt, "of subject", 2)) {
				p = append(pePath{{name: "credentialSubject"}}, drawMemberPath(rt, sub)...)
			}

			f := &c20Field{paths: []pePath{p}}
			fields = append(fields, f.json(rt, false))
			a, _, _ := f.requested(doc)
			must = append(must, a...)
		}

		cons := map[string]any{"fields": fields, "limit_disclosure": "required"}
		left := revealedDoc(doc, must)
		predicates := map[string]bool{}

		var frame map[string]any

		switch {
		case mode == "frame" && !subjectList:
			// the definition says itself what to reveal
			frame, left = reveal(rt, doc, "issuer", "issuanceDate", "credentialSubject")
			frame["type"] = "VerifiableCredential"
			frame["@context"], left["@context"] = doc["@context"], doc["@context"]
			cons = map[string]any{"fields": []any{map[string]any{"path": []any{"$.issuer"}}}}
		case mode == "predicate" && !subjectList:
			// the result cannot be proven, it is only reduced
			p := append(pePath{{name: "credentialSubject"}}, drawMemberPath(rt, sub)...)
			l := p.located(doc)[0]

			for _, m := range must {
				if touches(m, l) {
					return
				}
			}

			if strings.HasSuffix(l, "\x00id") || strings.HasSuffix(l, "\x00type") {
				return
			}

			predicates[l] = true
			must = append(must, l)
			cons["fields"] = append(fields, map[string]any{"path": []any{p.render(rt, false)}, "predicate": "required",
				"filter": map[string]any{"type": jsonType(p.eval(doc)[0])}})
		default:
			mode = "fields"
		}

		list := []any{map[string]any{"id": "d0", "constraints": cons}}
		pd := c20Definition(rt, list)
		pd.Frame = frame

		fail := func(format string, args ...any) {
			rt.Fatalf("%s\ndefinition %s\nframe %s\ncredential %s", fmt.Sprintf(format, args...), vk.JS(list), vk.JS(frame), data)
		}

		before, _ := cred.MarshalJSON()
		opts := []presexch.MatchRequirementsOpt{presexch.WithSDBBSProofCreator(s.creator()),
			presexch.WithSDCredentialOptions(parseOpts(verifiable.WithProofChecker(w.Checker()))...)}
		call := vk.Pick(rt, "call", "vp", "vp", "match")

		var (
			shown map[string]any
			vp    *verifiable.Presentation
		)

		if call == "vp" {
			vp, err = pd.CreateVP([]*verifiable.Credential{cred}, vk.Loader(), opts...)
		} else {
			var reqs []*presexch.MatchedSubmissionRequirement

			reqs, err = pd.MatchSubmissionRequirement([]*verifiable.Credential{cred}, vk.Loader(),
				append(opts, presexch.WithSelectiveDisclosureApply())...)
			if err == nil {
				if len(reqs) != 1 || len(reqs[0].Descriptors) != 1 || len(reqs[0].Descriptors[0].MatchedVCs) != 1 {
					fail("matched %s", vk.JS(reqs))
				}

				shown = vk.CloneMap(reqs[0].Descriptors[0].MatchedVCs[0].ToRawJSON())
			}
		}

		c.Sample(map[string]any{"doc": doc, "descriptors": list, "frame": frame, "call": call, "err": fmt.Sprint(err)})

		if err != nil {
			fail("%s: %v", call, err)
		}

		if after, _ := cred.MarshalJSON(); string(after) != string(before) {
			fail("the holder's credential changed from\n%s\nto\n%s", before, after)
		}

		if call == "vp" {
			m := submissionOf(rt, vp).DescriptorMap
			if len(m) != 1 {
				fail("entries %s", vk.JS(m))
			}

			shown, ok = submittedCredential(rt, []*verifiable.Presentation{vp}, m[0]).(map[string]any)
			if !ok {
				fail("no object submitted")
			}
		}

		c.Class("%s by %s, list %v", mode, call, subjectList)

		if mode == "predicate" {
			c.NonTrivial(doc, list)

			if want := limitedDoc(doc, must, predicates); !vk.Same(comparable20(want), comparable20(shown)) {
				fail("shown %s\nreference %s", vk.JS(shown), vk.JS(want))
			}

			return
		}

		bare := without(vk.CloneMap(shown), "proof")

		got, err := canonical(withoutBlankIDs(bare).(map[string]any), "")
		if err != nil {
			rt.Fatal(err)
		}

		want, err := canonical(left, "")
		if err != nil {
			rt.Fatal(err)
		}

		if full, e := canonical(doc, ""); e == nil && full != want {
			c.NonTrivial(doc, list, frame)
		}

		if got != want {
			fail("the presentation shows\n%s\nrequested was\n%s\n%s", got, want, vk.JS(bare))
		}

		proofs := asList(shown["proof"])
		if len(proofs) != 1 || proofs[0].(map[string]any)["type"] != "BbsBlsSignatureProof2020" {
			fail("proofs %s", vk.JS(proofs))
		}

		if _, e := verifiable.ParseCredential(vk.MustJSON(shown), parseOpts(verifiable.WithProofChecker(w.Checker()))...); e != nil {
			fail("the presented credential does not verify: %v\n%s", e, vk.JS(shown))
		}
	})
}

// bbsFixed is a credential with a BBS+ signature.
func bbsFixed(subject any) (cred *verifiable.Credential, s *bbsSetup, err error) {
	w := vk.NewWorld()
	key := vk.GetKey(vk.BBS, "c23")
	w.AddDID(issDID, vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: key})
	s = &bbsSetup{w: w, key: key, vm: issDID + "#bbs"}

	cred, err = verifiable.ParseCredential(vk.MustJSON(map[string]any{
		"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL, ctxBBS}, "type": "VerifiableCredential", "id": "did:ex:cred",
		"issuer": issDID, "issuanceDate": "2020-01-01T00:00:00Z", "t4": "n", "credentialSubject": subject,
	}), parseOpts(verifiable.WithDisabledProofCheck())...)
	if err != nil {
		return nil, nil, err
	}

	now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	return cred, s, cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
		SignatureType: "BbsBlsSignature2020", KeyType: key.KMSType, SignatureRepresentation: verifiable.SignatureProofValue,
		ProofCreator: key.Creator(), VerificationMethod: s.vm, Created: &now,
	}, ldOpts()...)
}

// bbsPresent has the credential presented with the paths disclosed only.
func bbsPresent(cred *verifiable.Credential, s *bbsSetup, paths ...string) (map[string]any, error) {
	var fields []any
	for _, p := range paths {
		fields = append(fields, map[string]any{"path": []any{p}})
	}

	pd := &presexch.PresentationDefinition{}
	if err := jsonInto(map[string]any{"id": "d", "input_descriptors": []any{map[string]any{"id": "d0",
		"constraints": map[string]any{"fields": fields, "limit_disclosure": "required"}}}}, pd); err != nil {
		return nil, err
	}

	vp, err := pd.CreateVP([]*verifiable.Credential{cred}, vk.Loader(),
		presexch.WithSDBBSProofCreator(s.creator()),
		presexch.WithSDCredentialOptions(parseOpts(verifiable.WithProofChecker(s.w.Checker()))...))
	if err != nil {
		return nil, err
	}

	return vp.Credentials()[0].ToRawJSON(), nil
}

// TestC20_Regressions: selections that once showed too much or not enough.
func TestC20_Regressions(t *testing.T) {
	vk.Enum(t, "every case", func(t *testing.T, next func() *vk.Case) {
		cred, s, err := bbsFixed(map[string]any{"id": "did:ex:subject", "t0": "secret", "t1": float64(5), "t2": true, "t3": []any{"a", "b"}})
		if err != nil {
			t.Fatal(err)
		}

		for path, name := range map[string]string{
			"$.id": "", "$.t4": "", "$.credentialSubject.id": "", "$.credentialSubject.t1": "t1", "$.credentialSubject.t2": "t2",
			"$.credentialSubject.t3": "t3",
		} {
			next().NonTrivial(path)

			doc, err := bbsPresent(cred, s, path)
			if err != nil {
				t.Fatalf("%s: %v", path, err)
			}

			sub, ok := doc["credentialSubject"].(map[string]any)
			if !ok {
				sub = map[string]any{"id": doc["credentialSubject"]}
			}

			for k, v := range sub {
				if k != "id" && (k != name || v == nil) {
					t.Fatalf("%s: the subject is shown as %s", path, vk.JS(sub))
				}
			}

			if name != "" && sub[name] == nil {
				t.Fatalf("%s: the subject is shown as %s", path, vk.JS(sub))
			}

			if l, ok := sub["t3"].([]any); name == "t3" && (!ok || len(l) != 2) {
				t.Fatalf("%s: the subject is shown as %s", path, vk.JS(sub))
			}
		}
	})
}

// TestC20_Findings: what is known not to work.
func TestC20_Findings(t *testing.T) {
	vk.Known(t, "bbs-array-elements", func() bool {
		cred, s, err := bbsFixed(map[string]any{"id": "did:ex:subject", "t0": "secret", "t3": []any{"a", "b"}})
		if err != nil {
			return false
		}

		_, err = bbsPresent(cred, s, "$.credentialSubject.t3[0]")

		return err != nil
	})
}

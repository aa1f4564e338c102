package props

import (
	"crypto"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	josejwt "github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/did-go/doc/ld/processor"
	util "github.com/trustbloc/did-go/doc/util/time"
	spi "github.com/trustbloc/kms-go/spi/storage"
	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	didconfigverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// job is something done with shared objects; its answer is a text.
type job[E any] struct {
	name string
	do   func(e E) string
}

// guarded is the answer of a job, or the panic it ended with.
func (j job[E]) guarded(e E) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()

	return j.do(e)
}

// roomyOpts gives a list that has room behind its end, for someone to write to.
func roomyOpts[T any](list []T) []T { return append(make([]T, 0, len(list)+4), list...) }

// inTime fails when f takes longer than a minute.
func inTime(rt *rapid.T, what func() string, f func()) {
	done := make(chan struct{})

	go func() {
		defer close(done)
		f()
	}()

	select {
	case <-done:
	case <-time.After(90 * time.Second):
		buf := make([]byte, 1<<16)
		rt.Fatalf("no end within 90 s: %s\n%s", what(), buf[:runtime.Stack(buf, true)])
	}
}

// together runs the jobs alone on objects of their own, and then all at once on shared ones, rounds times.
func together[E any](rt *rapid.T, fresh func() E, jobs []job[E], rounds int) (answers map[string]bool) {
	want := make([]string, len(jobs))
	answers = map[string]bool{}

	for i, j := range jobs {
		want[i] = j.guarded(fresh())
		answers[want[i]] = true
	}

	for r := 0; r < rounds; r++ {
		shared := fresh()
		got := make([]string, len(jobs)*2)
		start := make(chan struct{})

		var wg sync.WaitGroup

		for i := range got {
			wg.Add(1)

			go func() {
				defer wg.Done()
				<-start

				got[i] = jobs[i%len(jobs)].guarded(shared)
			}()
		}

		inTime(rt, func() string { return namesOfJobs(jobs) }, func() {
			close(start)
			wg.Wait()
		})

		for i, g := range got {
			if g != want[i%len(jobs)] {
				rt.Fatalf("%s answers differently in parallel\nalone    %s\nparallel %s\nwith %s", jobs[i%len(jobs)].name, want[i%len(jobs)], g, namesOfJobs(jobs))
			}
		}
	}

	return answers
}

func namesOfJobs[E any](jobs []job[E]) string {
	var out []string
	for _, j := range jobs {
		out = append(out, j.name)
	}

	return strings.Join(out, "; ")
}

// showCred is what a credential says, in one text.
func showCred(c *verifiable.Credential, err error) string {
	if err != nil {
		return "error"
	}

	out, err := c.MarshalJSON()
	if err != nil {
		out = []byte("error")
	}

	return vk.JS(c.ToRawJSON()) + vk.JS(contentsView(c.Contents())) + normSD(string(out)) + fmt.Sprint(c.JWTHeaders())
}

func showVP(p *verifiable.Presentation, err error) string {
	if err != nil {
		return "error"
	}

	out, err := p.MarshalJSON()
	if err != nil {
		return "error"
	}

	text := normSD(string(out))
	for _, c := range p.Credentials() {
		text += "\n" + showCred(c, nil)
	}

	return text
}

func okText(err error) string {
	if err != nil {
		return "error"
	}

	return "ok"
}

var pairings sync.Mutex

// checkEnv is what verifiers share.
type checkEnv struct {
	cred, strict []verifiable.CredentialOpt
	pres         []verifiable.PresentationOpt
	sd           []verifier.ParseOpt
	checker      jwt.ProofChecker
	cwtChecker   cwt.ProofChecker
	parsed       []*verifiable.Credential
}

// TestC29_Checking parses and checks with one checker, verifier and list of options.
func TestC29_Checking(t *testing.T) {
	vk.Check(t, "some are valid and some are not", 60, 2500, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()

		var parties []party
		for i, k := range []vk.Kind{vk.EdDSA, vk.ES256, vk.ES384, vk.EdDSA} {
			parties = append(parties, addParty(w, fmt.Sprintf("did:ex:aa%d", i), vk.GetKey(k, fmt.Sprintf("c29-%d", i))))
		}

		var (
			texts  [][]byte
			vps    [][]byte
			forms  []string
			creds  []*verifiable.Credential
			tokens []string
			cwts   [][]byte
		)

		for i := rapid.IntRange(2, 5).Draw(rt, "credentials"); i > 0; i-- {
			p := rapid.SampledFrom(parties).Draw(rt, "party")
			vc := drawVPCred(rt, w, p, credGen{Valid: true, NoSchema: true, Version: 1}, vk.Pick(rt, "form", "ldp", "di", "jwt", "cwt", "sd"))
			raw := vc.raw

			if strings.HasPrefix(string(raw), `"`) {
				if err := json.Unmarshal(raw, new(string)); err == nil {
					var s string
					_ = json.Unmarshal(raw, &s)
					raw = []byte(s)
				}
			}

			if vk.Coin(rt, "wrong", 3) {
				raw = []byte(strings.ReplaceAll(string(raw), p.did, "did:ex:aa1"))

				if vk.Coin(rt, "flip", 2) && (vc.form == "jwt" || vc.form == "sd" && !strings.Contains(string(raw), "~")) {
					raw = []byte(flipped(rt, string(raw)))
				}
			}

			texts, forms, creds = append(texts, raw), append(forms, vc.form), append(creds, vc.cred)

			if vc.form == "jwt" {
				tokens = append(tokens, string(raw))
			}

			if vc.form == "cwt" {
				cwts = append(cwts, vc.cred.CWTEnvelope.Sign1MessageRaw)
			}

			if vc.form != "cwt" && vk.Coin(rt, "present", 2) {
				vp, err := verifiable.NewPresentation(verifiable.WithCredentials(vc.cred))
				if err != nil {
					rt.Fatal(err)
				}

				vp.Holder = p.did

				if vk.Coin(rt, "as JWT", 2) {
					tok, err := vp.CreateJWTVP(nil, jwsAlg[p.key.Kind], p.key.Creator(), p.kid, true)
					if err != nil {
						rt.Fatal(err)
					}

					vp = tok
				}

				raw, err := vp.MarshalJSON()
				if err != nil {
					rt.Fatal(err)
				}

				vps = append(vps, raw)
			}
		}

		s := drawSD(rt)

		combined, err := s.issue(rt).Serialize(false)
		if err != nil {
			rt.Fatal(err)
		}

		cf := common.ParseCombinedFormatForIssuance(combined)
		shown := combined

		if !strings.HasSuffix(shown, "~") {
			shown += "~"
		}

		if vk.Coin(rt, "other issuer", 4) {
			s.world.AddDID(s.iss, vk.VM{Fragment: "k1", Key: vk.GetKey(s.key.Kind, "other")})
		}

		sdChecker := s.world.Checker()

		fresh := func() *checkEnv {
			e := &checkEnv{
				checker: w.Checker(), cwtChecker: w.Checker(),
				sd: roomyOpts([]verifier.ParseOpt{verifier.WithSignatureVerifier(sdChecker), verifier.WithIssuerSigningAlgorithms(roomy([]string{"EdDSA", "ES256", "ES384"}))}),
			}
			di := diVerifier(w, vk.Loader())
			e.cred = roomyOpts(parseOpts(verifiable.WithProofChecker(w.Checker()), verifiable.WithDataIntegrityVerifier(di)))
			e.strict = roomyOpts(parseOpts(verifiable.WithProofChecker(w.Checker()), verifiable.WithDataIntegrityVerifier(di), verifiable.WithStrictValidation(),
				verifiable.WithExternalJSONLDContext(roomy([]string{vk.ExtContextURL})...), verifiable.WithJSONLDValidation()))
			e.pres = roomyOpts(vpOpts(verifiable.WithPresProofChecker(w.Checker()), verifiable.WithPresDataIntegrityVerifier(di)))

			for i, raw := range texts {
				p, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
				if err != nil {
					p = creds[i]
				}

				e.parsed = append(e.parsed, p)
			}

			return e
		}

		var jobs []job[*checkEnv]

		for i, raw := range texts {
			jobs = append(jobs,
				job[*checkEnv]{"parse " + forms[i], func(e *checkEnv) string { return showCred(verifiable.ParseCredential(raw, e.cred...)) }},
				job[*checkEnv]{"check " + forms[i], func(e *checkEnv) string { return okText(e.parsed[i].CheckProof(e.cred...)) }},
				job[*checkEnv]{"validate " + forms[i], func(e *checkEnv) string { return okText(e.parsed[i].ValidateCredential(e.strict...)) }})
		}

		for _, raw := range vps {
			jobs = append(jobs, job[*checkEnv]{"parse presentation", func(e *checkEnv) string {
				return showVP(verifiable.ParsePresentation(raw, e.pres...))
			}})
		}

		for _, tok := range tokens {
			jobs = append(jobs, job[*checkEnv]{"check token", func(e *checkEnv) string {
				return okText(jwt.CheckProof(tok, e.checker, nil, nil))
			}})
		}

		for _, raw := range cwts {
			jobs = append(jobs, job[*checkEnv]{"check CWT", func(e *checkEnv) string {
				_, _, err := cwt.ParseAndCheckProof(raw, e.cwtChecker, false)

				return okText(err)
			}})
		}

		jobs = append(jobs, job[*checkEnv]{"read SD-JWT", func(e *checkEnv) string {
			got, err := verifier.Parse(shown, e.sd...)
			if err != nil {
				return "error"
			}

			return vk.JS(got)
		}}, job[*checkEnv]{"hold SD-JWT", func(e *checkEnv) string {
			got, err := holder.Parse(strings.TrimSuffix(shown, "~"), holder.WithSignatureVerifier(sdChecker))
			if err != nil {
				return "error"
			}

			out := make([]string, 0, len(got))
			for _, cl := range got {
				out = append(out, cl.Disclosure+vk.JS(cl.Value))
			}

			return strings.Join(vk.Sorted(out), ",")
		}})

		answers := together(rt, fresh, jobs, 2)

		if len(texts) > 1 && answers["error"] && len(answers) > 2 {
			c.NonTrivial(texts, len(cf.Disclosures))
		}

		for _, f := range forms {
			c.Class(f)
		}

		c.Class("errors %v", answers["error"])
		c.Sample(map[string]any{"jobs": namesOfJobs(jobs)})
	})
}

// issueEnv is what issuers share.
type issueEnv struct {
	claims map[string]any
	ld     []processor.Opts
	opts   []verifiable.CredentialOpt
	sd     []issuer.NewOpt
	cred   *verifiable.Credential
	vp     *verifiable.Presentation
	salts  *sync.Map
	twice  *atomic.Int64
}

// TestC29_Issuing signs and issues with shared signers, options, claims and credentials.
func TestC29_Issuing(t *testing.T) { //nolint:gocyclo
	vk.Check(t, "at least three ways of issuing", 80, 3000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c29"))
		q := addParty(w, "did:ex:other", vk.GetKey(vk.EdDSA, "c29-b"))
		g := credGen{LD: true, Valid: true, NoSchema: true, SingleSub: true, Issuer: p.did}
		doc, _ := g.draw(rt)
		doc = vk.CloneMap(doc)
		doc["@context"] = append(asList(doc["@context"]), diCtx)
		now := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

		s := drawSD(rt)
		s.decoys = vk.Coin(rt, "decoy digests", 3)
		s.hash = rapid.SampledFrom([]crypto.Hash{crypto.SHA256, crypto.SHA512}).Draw(rt, "alg")

		proofCreator, jsigner, di := p.key.Creator(), joseSigner(p.key, p.kid, ""), diSigner(w, p.key)
		checker, dv := w.Checker(), diVerifier(w, vk.Loader())
		sdSigner := joseSigner(s.key, s.kid, "")
		sdChecker := s.world.Checker()

		fresh := func() *issueEnv {
			cred, err := verifiable.ParseCredential(mustJSON(rt, doc), parseOpts(verifiable.WithDisabledProofCheck())...)
			if err != nil {
				rt.Fatalf("%v %s", err, vk.JS(doc))
			}

			vp, err := verifiable.NewPresentation(verifiable.WithCredentials(cred))
			if err != nil {
				rt.Fatal(err)
			}

			vp.Holder = p.did

			return &issueEnv{ld: roomyOpts(ldOpts()), opts: roomyOpts(parseOpts(verifiable.WithProofChecker(checker))), cred: cred, vp: vp, claims: vk.CloneMap(s.claims), sd: roomyOpts(s.opts()), salts: &sync.Map{}, twice: &atomic.Int64{}}
		}

		diOpts := func(purpose, kid string) *models.ProofOptions {
			return &models.ProofOptions{Purpose: purpose, VerificationMethodID: kid, ProofType: models.DataIntegrityProof, SuiteType: "eddsa-rdfc-2022", Created: now}
		}
		sharedDI := diOpts("assertionMethod", p.kid)
		docBytes := mustJSON(rt, doc)

		bbs := &bbsSetup{w: w, key: vk.GetKey(vk.BBS, "c29"), vm: issDID + "b#bbs"}
		w.AddDID(issDID+"b", vk.VM{Fragment: "bbs", Type: "Bls12381G2Key2020", Bytes: true, Key: bbs.key})

		bbsFrame := map[string]any{"@context": []any{verifiable.V1ContextURI, ctxBBS}, "type": "VerifiableCredential", "@explicit": true,
			"issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{}}
		bbsCred := sync.OnceValue(func() *verifiable.Credential {
			x, err := verifiable.ParseCredential(vk.MustJSON(map[string]any{
				"@context": []any{verifiable.V1ContextURI, vk.ExtContextURL, ctxBBS}, "id": "did:ex:cred", "type": []any{"VerifiableCredential"},
				"issuer": issDID + "b", "issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2090-01-01T00:00:00Z",
				"credentialSubject": map[string]any{"id": "did:ex:sub", "t0": "x"},
			}), parseOpts(verifiable.WithDisabledProofCheck())...)
			if err != nil {
				panic(err)
			}

			signBBS(rt, x, bbs.key, bbs.vm)

			return x
		})
		minimize := rapid.Bool().Draw(rt, "minimize")

		all := []job[*issueEnv]{
			{"sign JWT", func(e *issueEnv) string {
				return showCred(e.cred.CreateSignedJWTVC(minimize, jwsAlg[p.key.Kind], proofCreator, p.kid))
			}},
			{"sign JWT of claims", func(e *issueEnv) string {
				tok, err := jwt.NewJoseSigned(e.claims, nil, jsigner)
				if err != nil {
					return "error"
				}

				text, err := tok.Serialize(false)
				if err != nil || jwt.CheckProof(text, checker, nil, nil) != nil {
					return "error " + text
				}

				return text
			}},
			{"sign COSE", func(e *issueEnv) string {
				x, err := e.cred.CreateSignedCOSEVC(coseAlg[p.key.Kind], proofCreator, p.kid)
				if err != nil {
					return "error"
				}

				// CBOR maps are in no particular order
				raw, err := x.CWTEnvelope.Sign1MessageParsed.MarshalCBOR()
				if err != nil {
					return "error"
				}

				x, err = verifiable.ParseCredential(raw, e.opts...)
				if err != nil {
					return "error"
				}

				return vk.JS(x.ToRawJSON()) + vk.JS(contentsView(x.Contents()))
			}},
			{"unsecured", func(e *issueEnv) string { return showCred(e.cred.CreateUnsecuredJWTVC(minimize)) }},
			{"present as JWT", func(e *issueEnv) string {
				return showVP(e.vp.CreateJWTVP([]string{"a"}, jwsAlg[p.key.Kind], proofCreator, p.kid, minimize))
			}},
			{"clone", func(e *issueEnv) string {
				vp := e.vp.Clone()
				vp.ID = "urn:clone"

				return showVP(vp, nil)
			}},
			{"Data Integrity", func(*issueEnv) string {
				out, err := di.AddProof(docBytes, sharedDI)
				if err != nil {
					return "error"
				}

				return string(out) + okText(dv.VerifyProof(out, diOpts("assertionMethod", "")))
			}},
			{"Data Integrity of another", func(*issueEnv) string {
				out, err := di.AddProof(docBytes, diOpts("authentication", q.kid))
				if err != nil {
					return "error"
				}

				return string(out) + okText(dv.VerifyProof(out, diOpts("authentication", "")))
			}},
			{"BBS reveal", func(e *issueEnv) string {
				// the pairing library writes to its generator, so never two of these at once
				pairings.Lock()
				defer pairings.Unlock()

				x, err := bbsCred().GenerateBBSSelectiveDisclosure(bbsFrame, []byte("nonce"), bbs.creator(), e.opts...)
				if err != nil {
					return "error"
				}

				out, err := x.MarshalJSON()
				if err != nil {
					return "error"
				}

				_, err = verifiable.ParseCredential(out, e.opts...)
				m := x.ToRawJSON()
				delete(m, "proof")

				return okText(err) + vk.JS(m)
			}},
			{"LD proof", func(e *issueEnv) string {
				cred, err := verifiable.ParseCredential(docBytes, parseOpts(verifiable.WithDisabledProofCheck())...)
				if err != nil {
					return "error"
				}

				err = cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{
					SignatureType: "Ed25519Signature2018", SignatureRepresentation: verifiable.SignatureJWS, KeyType: p.key.KMSType,
					ProofCreator: proofCreator, VerificationMethod: p.kid, Created: &now,
				}, e.ld...)

				return okText(err) + showCred(cred, nil)
			}},
			{"SD-JWT", func(e *issueEnv) string {
				tok, err := issuer.New(s.iss, e.claims, nil, sdSigner, e.sd...)
				if err != nil {
					return "error"
				}

				for _, d := range tok.Disclosures {
					if _, loaded := e.salts.LoadOrStore(d, true); loaded {
						e.twice.Add(1)
					}
				}

				text, err := tok.Serialize(false)
				if err != nil {
					return "error"
				}

				shown := strings.TrimSuffix(text, "~") + "~"
				if e.twice.Load() > 0 {
					return "a disclosure was issued twice"
				}

				got, err := verifier.Parse(shown, verifier.WithSignatureVerifier(sdChecker), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA", "ES256", "ES384"}))
				if err != nil {
					return "error"
				}

				return fmt.Sprint(len(tok.Disclosures)) + vk.JS(got)
			}},
			{"SD-JWT credential", func(e *issueEnv) string {
				text, err := e.cred.MakeSDJWT(jsigner, p.kid, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))
				if err != nil {
					return "error"
				}

				cred, err := verifiable.ParseCredential([]byte(text), parseOpts(verifiable.WithProofChecker(checker))...)
				if err != nil {
					return "error"
				}

				d, err := cred.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())

				return okText(err) + vk.JS(d)
			}},
			{"holder binding", func(*issueEnv) string {
				tok, err := holder.CreateHolderVerification(&holder.BindingInfo{
					Payload: holder.BindingPayload{Nonce: "n", Audience: "a", IssuedAt: josejwt.NewNumericDate(now)}, Signer: jsigner,
				})

				return tok + okText(err)
			}},
		}

		var jobs []job[*issueEnv]
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "jobs"); i < n; i++ {
			jobs = append(jobs, rapid.SampledFrom(all).Draw(rt, "job"))
		}

		together(rt, fresh, jobs, 2)

		kinds := map[string]bool{}
		for _, j := range jobs {
			kinds[j.name] = true
			c.Class(j.name)
		}

		if len(kinds) > 2 {
			c.NonTrivial(namesOfJobs(jobs), string(docBytes))
		}

		c.Sample(map[string]any{"jobs": namesOfJobs(jobs)})
	})
}

// TestC29_Credential reads one credential from many places.
func TestC29_Credential(t *testing.T) { //nolint:gocyclo
	vk.Check(t, "at least three kinds of reading", 160, 5000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		p := addParty(w, issDID, vk.GetKey(vk.EdDSA, "c29"))
		form := vk.Pick(rt, "form", "plain", "ldp", "di", "jwt", "cwt", "sd", "sd")
		cred := drawVPCred(rt, w, p, credGen{Valid: true, NoSchema: true}, form).cred
		checker, di := w.Checker(), diVerifier(w, vk.Loader())
		when, _ := util.ParseTimeWrapper("2021-02-03T04:05:06Z")
		disc := cred.SDJWTDisclosures()

		var names []string
		for _, d := range disc {
			names = append(names, d.Name)
		}

		names = roomy(sample(rt, "names", append([]string{"other"}, names...), 3))

		fresh := func() *verifiable.Credential { return cred.Clone() }
		text := func(s string, err error) string { return normSD(s) + okText(err) }

		all := []job[*verifiable.Credential]{
			{"show", func(x *verifiable.Credential) string { return showCred(x, nil) }},
			{"claims", func(x *verifiable.Credential) string { cl, err := x.JWTClaims(true); return vk.JS(cl) + okText(err) }},
			{"CWT claims", func(x *verifiable.Credential) string {
				cl, err := x.CWTClaims()
				if err != nil {
					return "error"
				}

				return vk.JS(cl.VC)
			}},
			{"universal", func(x *verifiable.Credential) string {
				u, err := x.ToUniversalForm()
				return normSD(vk.JS(u)) + okText(err)
			}},
			{"JSON-LD", func(x *verifiable.Credential) string { b, err := x.MarshalAsJSONLD(); return text(string(b), err) }},
			{"token", func(x *verifiable.Credential) string { return text(x.ToJWTString()) }},
			{"disclose all", func(x *verifiable.Credential) string { return text(x.MarshalWithDisclosure(verifiable.DiscloseAll())) }},
			{"disclose some", func(x *verifiable.Credential) string {
				return text(x.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(names)))
			}},
			{"display all", func(x *verifiable.Credential) string {
				return showCred(x.CreateDisplayCredential(verifiable.DisplayAllDisclosures()))
			}},
			{"display some", func(x *verifiable.Credential) string {
				m, err := x.CreateDisplayCredentialMap(verifiable.DisplayGivenDisclosures(names))

				return vk.JS(m) + okText(err)
			}},
			{"validate", func(x *verifiable.Credential) string { return okText(x.ValidateCredential(parseOpts()...)) }},
			{"check proof", func(x *verifiable.Credential) string {
				return okText(x.CheckProof(parseOpts(verifiable.WithProofChecker(checker), verifiable.WithDataIntegrityVerifier(di),
					verifiable.WithExternalJSONLDContext(vk.ExtContextURL))...))
			}},
			{"present", func(x *verifiable.Credential) string {
				vp, err := verifiable.NewPresentation(verifiable.WithCredentials(x))

				return showVP(vp, err)
			}},
			{"modified", func(x *verifiable.Credential) string {
				y := x.WithModifiedID("urn:other").WithModifiedValidUntil(when).WithModifiedIssuer(&verifiable.Issuer{ID: "did:ex:new"})
				y.SetCustomField("xcustom", 1.0)

				return showCred(y, nil)
			}},
			{"edited", func(x *verifiable.Credential) string {
				vandalise(x.ToRawJSON())
				vandaliseContents(x.Contents())

				return ""
			}},
			{"contents", func(x *verifiable.Credential) string { return showCred(verifiable.CreateCredential(x.Contents(), nil)) }},
		}

		var jobs []job[*verifiable.Credential]

		kinds := map[string]bool{}

		for i, n := 0, rapid.IntRange(2, 7).Draw(rt, "jobs"); i < n; i++ {
			j := rapid.SampledFrom(all).Draw(rt, "job")
			jobs = append(jobs, j)
			kinds[j.name] = true
			c.Class("%s %s", form, j.name)
		}

		together(rt, fresh, jobs, 2)

		if len(kinds) > 2 {
			c.NonTrivial(form, namesOfJobs(jobs), vk.JS(cred.ToRawJSON()))
		}

		c.Sample(map[string]any{"form": form, "jobs": namesOfJobs(jobs)})
	})
}

type exchangeEnv struct {
	pd     *presexch.PresentationDefinition
	wallet []*verifiable.Credential
	vps    []*verifiable.Presentation
	opts   []presexch.MatchOption
	ropts  []presexch.MatchRequirementsOpt
}

// TestC29_Exchange presents and matches with one definition and one wallet.
func TestC29_Exchange(t *testing.T) {
	vk.Check(t, "the definition selects something", 130, 4000, func(rt *rapid.T, c *vk.Case) {
		creds := drawWallet(rt, peGen{v2: vk.Coin(rt, "v2", 3), plainID: true, forms: []string{"plain", "ld", "jwt", "sdjwt"}})
		d := peDefGen{}.draw(rt, creds)
		limit := vk.Coin(rt, "limit", 2)
		pd := d.definition(rt)

		var text []byte

		if vp, err := pd.CreateVP(walletOf(creds), vk.Loader()); err == nil {
			text, err = vp.MarshalJSON()
			if err != nil {
				rt.Fatal(err)
			}
		}

		fresh := func() *exchangeEnv {
			e := &exchangeEnv{pd: d.definition(rt)}

			if limit {
				r := presexch.Required

				for _, desc := range e.pd.InputDescriptors {
					if desc.Constraints != nil {
						desc.Constraints.LimitDisclosure = &r
					}
				}
			}

			for _, x := range walletOf(creds) {
				e.wallet = append(e.wallet, x.Clone())
			}

			if text != nil {
				vp, err := verifiable.ParsePresentation(text, vpOpts(verifiable.WithPresDisabledProofCheck())...)
				if err != nil {
					rt.Fatal(err)
				}

				e.vps = []*verifiable.Presentation{vp}
			}

			e.opts = roomyOpts([]presexch.MatchOption{presexch.WithCredentialOptions(roomyOpts(peCredOpts())...), presexch.WithDisableSchemaValidation()})
			e.ropts = roomyOpts([]presexch.MatchRequirementsOpt{presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(roomyOpts(peCredOpts())...)})

			return e
		}

		// presentations get ids of their own, and reduced credentials ids made for them
		show := func(vps []*verifiable.Presentation, sub *presexch.PresentationSubmission, err error) string {
			if err != nil {
				return "error"
			}

			var out []string

			for _, vp := range vps {
				list := []string{}
				for _, x := range vp.Credentials() {
					list = append(list, showCred(x, nil))
				}

				out = append(out, strings.Join(list, "\n"), vk.JS(vp.Context), vk.JS(vp.Type))
			}

			if sub != nil {
				out = append(out, vk.JS(sub.DescriptorMap), sub.DefinitionID)
			}

			return strings.Join(out, "\n")
		}

		all := []job[*exchangeEnv]{
			{"create", func(e *exchangeEnv) string {
				vp, err := e.pd.CreateVP(e.wallet, vk.Loader(), e.ropts...)
				if err != nil {
					return "error"
				}

				return show([]*verifiable.Presentation{vp}, nil, nil)
			}},
			{"create several", func(e *exchangeEnv) string {
				return show(e.pd.CreateVPArray(e.wallet, vk.Loader(), e.ropts...))
			}},
			{"requirements", func(e *exchangeEnv) string {
				got, err := e.pd.MatchSubmissionRequirement(e.wallet, vk.Loader())

				return showMatched(got) + okText(err)
			}},
			{"requirements, limited", func(e *exchangeEnv) string {
				got, err := e.pd.MatchSubmissionRequirement(e.wallet, vk.Loader(), e.ropts...)

				return showMatched(got) + okText(err)
			}},
			{"validate", func(e *exchangeEnv) string { return okText(e.pd.ValidateSchema()) }},
		}

		if text != nil {
			all = append(all, job[*exchangeEnv]{"match", func(e *exchangeEnv) string {
				got, err := e.pd.Match(e.vps, vk.Loader(), e.opts...)
				if err != nil {
					return "error"
				}

				var out []string
				for _, m := range got {
					out = append(out, m.DescriptorID+showCred(m.Credential, nil))
				}

				return strings.Join(vk.Sorted(out), "\n")
			}})
		}

		var jobs []job[*exchangeEnv]
		for i, n := 0, rapid.IntRange(2, 5).Draw(rt, "jobs"); i < n; i++ {
			j := rapid.SampledFrom(all).Draw(rt, "job")
			jobs = append(jobs, j)
			c.Class(j.name)
		}

		together(rt, fresh, jobs, 2)

		c.Class("selected %v", text != nil)

		if text != nil {
			c.NonTrivial(vk.JS(d.json()), string(text))
		}

		c.Sample(map[string]any{"definition": d.json(), "jobs": namesOfJobs(jobs)})
	})
}

func showMatched(got []*presexch.MatchedSubmissionRequirement) string {
	var out []string

	for _, g := range got {
		out = append(out, g.Name, showMatched(g.Nested))

		for _, desc := range g.Descriptors {
			out = append(out, desc.ID)
			for _, m := range desc.MatchedVCs {
				out = append(out, showCred(m, nil))
			}
		}
	}

	return strings.Join(out, "\n")
}

type clientEnv struct {
	status interface {
		VerifyStatus(*verifiable.Credential) error
	}
	related *verifiable.RelatedResourceValidator
	schemas *verifiable.CredentialSchemaLoader
	creds   []*verifiable.Credential
}

// TestC29_Clients shares status clients, DID configurations, schema loaders and resource validators.
func TestC29_Clients(t *testing.T) {
	quietDIDConfig()

	vk.Check(t, "at least two answers", 150, 5000, func(rt *rapid.T, c *vk.Case) {
		s := newStatusWorld()

		var (
			creds []*verifiable.Credential
			jobs  []job[*clientEnv]
		)

		for i := rapid.IntRange(1, 4).Draw(rt, "status"); i > 0; i-- {
			n := len(creds)
			creds = append(creds, statusCredential(rt, []statusEntry{s.entry(rt)}))
			jobs = append(jobs, job[*clientEnv]{"status", func(e *clientEnv) string { return statusAnswer(e.status.VerifyStatus(e.creds[n])) }})
		}

		w, keys := linkWorld(rt)
		did, domain := vk.Pick(rt, "did", linkDIDs...), vk.Pick(rt, "domain", linkOrigins...)
		cfg, _, _ := drawConfig(rt, did, domain, keys)

		for i := rapid.IntRange(0, 2).Draw(rt, "links"); i > 0; i-- {
			d, o := did, domain
			if i == 1 {
				d, o = vk.Pick(rt, "did2", linkDIDs...), vk.Pick(rt, "domain2", linkOrigins...)
			}

			jobs = append(jobs, job[*clientEnv]{"linkage", func(*clientEnv) string {
				return okText(didconfigverifier.VerifyDIDAndDomain(cfg, d, o, didconfigverifier.WithJSONLDDocumentLoader(vk.Loader()),
					didconfigverifier.WithVDRegistry(w)))
			}})
		}

		web := &schemaWeb{pages: map[string]*schemaPage{}, gets: map[string]int{}}
		doc, _ := credGen{LD: true, SingleSub: true, NoSchema: true, Valid: true}.draw(rt)
		sub := doc["credentialSubject"].(map[string]any)

		for i := rapid.IntRange(1, 3).Draw(rt, "schemas"); i > 0; i-- {
			u := fmt.Sprintf("https://schemas.example/%d", i)
			web.pages[u] = drawSchemaPage(rt, sub)
			d := vk.CloneMap(doc)
			d["credentialSchema"] = map[string]any{"id": u, "type": vk.Pick(rt, "reftype", "JsonSchema", "JsonSchemaValidator2018")}
			raw := vk.MustJSON(d)

			jobs = append(jobs, job[*clientEnv]{"schema", func(e *clientEnv) string {
				_, err := verifiable.ParseCredential(raw, parseOpts(verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(e.schemas))...)

				return okText(err)
			}})
		}

		rweb := &resWeb{pages: map[string]*resPage{}}
		for _, n := range []string{"a", "b", "c", "d"} {
			rweb.pages["https://r.example/"+n] = &resPage{body: []byte(vk.Str().Draw(rt, "body"))}
		}

		for i := rapid.IntRange(0, 2).Draw(rt, "resources"); i > 0; i-- {
			r, _ := drawRelated(rt, rweb)

			cred, err := verifiable.CreateCredential(verifiable.CredentialContents{
				Context: []string{verifiable.V2ContextURI}, Types: []string{"VerifiableCredential"},
				Issuer: &verifiable.Issuer{ID: "did:ex:aaa"}, Subject: []verifiable.Subject{{ID: "did:ex:s"}}, RelatedResources: []verifiable.RelatedResource{r},
			}, nil)
			if err != nil {
				rt.Fatal(err)
			}

			n := len(creds)
			creds = append(creds, cred)
			jobs = append(jobs, job[*clientEnv]{"resource", func(e *clientEnv) string { return okText(e.related.Validate([]*verifiable.Credential{e.creds[n]})) }})
		}

		expirable := rapid.Bool().Draw(rt, "expirable")

		fresh := func() *clientEnv {
			b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: web})
			if expirable {
				b = b.SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour))
			}

			return &clientEnv{
				status: s.client(), schemas: b.Build(), creds: creds,
				related: verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(rweb)),
			}
		}

		answers := together(rt, fresh, jobs, 2)

		for _, j := range jobs {
			c.Class(j.name)
		}

		if len(answers) > 1 {
			c.NonTrivial(namesOfJobs(jobs), vk.JS(doc), string(cfg))
		}

		c.Sample(map[string]any{"jobs": namesOfJobs(jobs), "answers": len(answers)})
	})
}

// storeOp is an operation on a store with what it answered.
type storeOp struct {
	kind  string
	key   string
	keys  []string
	value string
	tags  []spi.Tag
	batch []spi.Operation

	call, ret int64
	answer    string
}

func (o *storeOp) String() string {
	return fmt.Sprintf("[%d-%d] %s %q %q %q %s %s -> %s", o.call, o.ret, o.kind, o.key, o.keys, o.value, tagText(o.tags), batchText(o.batch), o.answer)
}

func batchText(b []spi.Operation) string {
	var out []string
	for _, o := range b {
		out = append(out, fmt.Sprintf("%s=%q%s", o.Key, o.Value, tagText(o.Tags)))
	}

	return strings.Join(out, "|")
}

// run does the operation on a real store.
func (o *storeOp) run(s spi.Store) string {
	switch o.kind {
	case "put":
		return okText(s.Put(o.key, []byte(o.value), o.tags...))
	case "get":
		v, err := s.Get(o.key)

		return fmt.Sprintf("%q %s", v, okText(err))
	case "tags":
		v, err := s.GetTags(o.key)

		return tagText(v) + okText(err)
	case "delete":
		return okText(s.Delete(o.key))
	case "bulk":
		v, err := s.GetBulk(o.keys...)

		return fmt.Sprintf("%q %s", v, okText(err))
	case "batch":
		return okText(s.Batch(o.batch))
	default:
		it, err := s.Query(o.key)
		if err != nil {
			return "error"
		}

		var out []string

		for {
			more, err := it.Next()
			if err != nil {
				return "error"
			}

			if !more {
				break
			}

			k, _ := it.Key()
			v, _ := it.Value()
			tags, _ := it.Tags()
			out = append(out, fmt.Sprintf("%s=%q%s", k, v, tagText(tags)))
		}

		_ = it.Close()

		return strings.Join(vk.Sorted(out), ";")
	}
}

// apply does the operation on the model.
func (o *storeOp) apply(m memModel) (memModel, string) {
	put := func(m memModel, k, v string, tags []spi.Tag) { m[k] = memEntry{value: v, tags: tags} }

	switch o.kind {
	case "put":
		m = m.clone()
		put(m, o.key, o.value, o.tags)

		return m, "ok"
	case "get":
		e, ok := m[o.key]
		if !ok {
			return m, `"" error`
		}

		return m, fmt.Sprintf("%q ok", e.value)
	case "tags":
		e, ok := m[o.key]
		if !ok {
			return m, "error"
		}

		return m, tagText(e.tags) + "ok"
	case "delete":
		m = m.clone()
		delete(m, o.key)

		return m, "ok"
	case "bulk":
		vals := make([][]byte, len(o.keys))

		for i, k := range o.keys {
			if e, ok := m[k]; ok {
				vals[i] = []byte(e.value)
			}
		}

		return m, fmt.Sprintf("%q ok", vals)
	case "batch":
		m = m.clone()

		for _, b := range o.batch {
			if b.Value == nil {
				delete(m, b.Key)
			} else {
				put(m, b.Key, string(b.Value), b.Tags)
			}
		}

		return m, "ok"
	default:
		sel, _ := m.query(o.key)

		var out []string
		for k, e := range sel {
			out = append(out, fmt.Sprintf("%s=%q%s", k, e.value, tagText(e.tags)))
		}

		return m, strings.Join(vk.Sorted(out), ";")
	}
}

func (m memModel) text() string {
	var out []string
	for k, e := range m {
		out = append(out, k+"="+e.value+tagText(e.tags))
	}

	return strings.Join(vk.Sorted(out), ";")
}

// linearizable tells if there is an order of the operations, in keeping with when they were called and
// answered, in which a store used by one alone would have given the same answers.
func linearizable(ops []*storeOp) bool {
	if len(ops) > 62 {
		panic("VERIF-HARNESS-ERROR history too long")
	}

	seen := map[string]bool{}

	var search func(done uint64, m memModel) bool

	search = func(done uint64, m memModel) bool {
		if done == uint64(1)<<len(ops)-1 {
			return true
		}

		key := fmt.Sprint(done, m.text())
		if seen[key] {
			return false
		}

		seen[key] = true

		first := int64(1) << 62 // the first answer given among those not yet ordered

		for i, o := range ops {
			if done>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}

		for i, o := range ops {
			if done>>i&1 == 1 || o.call > first {
				continue
			}

			if next, answer := o.apply(m); answer == o.answer && search(done|1<<i, next) {
				return true
			}
		}

		return false
	}

	return search(0, memModel{})
}

func drawStoreOp(rt *rapid.T, n *int) *storeOp {
	key := func() string { return vk.Pick(rt, "key", "a", "b", "c") }
	tags := func() []spi.Tag {
		var out []spi.Tag
		for i := rapid.IntRange(0, 2).Draw(rt, "tags"); i > 0; i-- {
			out = append(out, spi.Tag{Name: vk.Pick(rt, "tag", "x", "y"), Value: vk.Pick(rt, "val", "1", "2")})
		}

		return out
	}
	value := func() string {
		*n++

		return fmt.Sprintf("v%d", *n)
	}

	o := &storeOp{kind: vk.Pick(rt, "op", "put", "put", "get", "tags", "delete", "bulk", "batch", "batch", "query", "query")}

	switch o.kind {
	case "put":
		o.key, o.value, o.tags = key(), value(), tags()
	case "bulk":
		for i := rapid.IntRange(2, 4).Draw(rt, "keys"); i > 0; i-- {
			o.keys = append(o.keys, key())
		}
	case "batch":
		for i := rapid.IntRange(2, 4).Draw(rt, "batch"); i > 0; i-- {
			b := spi.Operation{Key: key()}
			if !vk.Coin(rt, "remove", 3) {
				b.Value, b.Tags = []byte(value()), tags()
			}

			o.batch = append(o.batch, b)
		}
	case "query":
		o.key = vk.Pick(rt, "expression", "x", "y", "x:1", "y:2", "x&&y", "x:1&&y:2")
	default:
		o.key = key()
	}

	return o
}

// TestC29_Store runs operations on one store from several goroutines; what they answer must fit one order of them.
func TestC29_Store(t *testing.T) {
	vk.Check(t, "at least two goroutines with two operations each, one of them a write", 350, 12000, func(rt *rapid.T, c *vk.Case) {
		n := 0
		threads := make([][]*storeOp, rapid.IntRange(2, 4).Draw(rt, "threads"))
		writes := 0
		kinds := map[string]bool{}

		for i := range threads {
			for j := rapid.IntRange(1, 4).Draw(rt, "ops"); j > 0; j-- {
				o := drawStoreOp(rt, &n)
				threads[i] = append(threads[i], o)
				kinds[o.kind] = true

				if o.kind == "put" || o.kind == "delete" || o.kind == "batch" {
					writes++
				}
			}
		}

		names := make([]string, len(threads))
		for i := range names {
			names[i] = vk.Pick(rt, "name", "store", "Store", "STORE")
		}

		for round := 0; round < 60; round++ {
			p := mem.NewProvider()

			var (
				clock atomic.Int64
				wg    sync.WaitGroup
				mu    sync.Mutex
				bad   string
			)

			start := make(chan struct{})

			for i, ops := range threads {
				wg.Add(1)

				go func() {
					defer wg.Done()
					<-start

					s, err := p.OpenStore(names[i])
					if err == nil {
						err = p.SetStoreConfig(names[i], spi.StoreConfiguration{TagNames: []string{"x", "y"}})
					}

					if err == nil {
						var cfg spi.StoreConfiguration

						cfg, err = p.GetStoreConfig(names[i])
						if err == nil && (len(cfg.TagNames) != 2 || len(p.GetOpenStores()) != 1) {
							err = fmt.Errorf("config %v, %d stores", cfg, len(p.GetOpenStores()))
						}
					}

					if err != nil {
						mu.Lock()
						bad = err.Error()
						mu.Unlock()

						return
					}

					for _, o := range ops {
						o.call = clock.Add(1)
						o.answer = o.run(s)
						o.ret = clock.Add(1)
					}
				}()
			}

			var history []*storeOp
			for _, ops := range threads {
				history = append(history, ops...)
			}

			inTime(rt, func() string { return fmt.Sprint(len(history), " operations") }, func() {
				close(start)
				wg.Wait()
			})

			if bad != "" {
				rt.Fatalf("opening the store: %s", bad)
			}

			if !linearizable(history) {
				sort.Slice(history, func(i, j int) bool { return history[i].call < history[j].call })

				var text []string
				for _, o := range history {
					text = append(text, o.String())
				}

				rt.Fatalf("no order of these operations gives these answers:\n%s", strings.Join(text, "\n"))
			}
		}

		for k := range kinds {
			c.Class(k)
		}

		if len(threads) > 1 && len(threads[0]) > 1 && len(threads[1]) > 1 && writes > 0 {
			c.NonTrivial(n, len(threads), vk.SortedKeys(anyOf(kinds)))
		}
	})
}

// TestC29_Provider opens and closes stores of one provider from several goroutines.
func TestC29_Provider(t *testing.T) {
	vk.Check(t, "stores are closed while others are used", 200, 6000, func(rt *rapid.T, c *vk.Case) {
		type step struct{ op, name string }

		threads := make([][]step, rapid.IntRange(2, 4).Draw(rt, "threads"))
		closes := false

		for i := range threads {
			for j := rapid.IntRange(1, 5).Draw(rt, "steps"); j > 0; j-- {
				s := step{vk.Pick(rt, "op", "open", "open", "put", "close", "config", "list", "close all"), vk.Pick(rt, "name", "a", "b")}
				threads[i] = append(threads[i], s)
				closes = closes || strings.HasPrefix(s.op, "close")
			}
		}

		for round := 0; round < 10; round++ {
			p := mem.NewProvider()
			own, err := p.OpenStore("own")

			if err != nil {
				rt.Fatal(err)
			}

			var wg sync.WaitGroup

			start := make(chan struct{})

			for _, steps := range threads {
				wg.Add(1)

				go func() {
					defer wg.Done()
					<-start

					for _, s := range steps {
						st, err := p.OpenStore(s.name)
						if err != nil {
							continue
						}

						switch s.op {
						case "put":
							_ = st.Put("k", []byte("v"), spi.Tag{Name: "x"})
							_, _ = st.Get("k")
						case "close":
							_ = st.Close()
						case "config":
							_ = p.SetStoreConfig(s.name, spi.StoreConfiguration{TagNames: []string{"x"}})
							_, _ = p.GetStoreConfig(s.name)
						case "list":
							_ = p.GetOpenStores()
						case "close all":
							_ = p.Close()
						}
					}
				}()
			}

			inTime(rt, func() string { return fmt.Sprint(threads) }, func() {
				close(start)
				_ = own.Put("k", []byte("own"))
				wg.Wait()
			})

			if v, err := own.Get("k"); err != nil || string(v) != "own" {
				rt.Fatalf("what others did with other stores changed this one: %q %v\n%v", v, err, threads)
			}
		}

		c.Class("closes %v", closes)

		if closes {
			c.NonTrivial(fmt.Sprint(threads))
		}
	})
}

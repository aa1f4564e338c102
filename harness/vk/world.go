package vk

import (
	"errors"
	"fmt"
	"sync"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	ldcontext "github.com/trustbloc/did-go/doc/ld/context"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/vermethod"
)

// World is a set of DIDs with their documents; it is a VDR.
type World struct {
	mu   sync.RWMutex
	docs map[string]*did.Doc
}

// VM describes one verification method of a DID document under construction.
type VM struct {
	Fragment string
	Type     string // "" = JsonWebKey2020 (Bls12381G2Key2020 for BBS)
	Key      *Key
	Bytes    bool // key as raw bytes
	Rels     []did.VerificationRelationship
	ListOnly bool   // only in verificationMethod, no relationship
	Embedded bool   // defined inside its relationships, not in verificationMethod
	ID       string // full id, when not DID#Fragment
	Raw      []byte // key material, when not that of Key
}

// NewWorld makes an empty world.
func NewWorld() *World { return &World{docs: map[string]*did.Doc{}} }

// AllRels are the relationships (key agreement excluded) a key gets by default.
var AllRels = []did.VerificationRelationship{did.Authentication, did.AssertionMethod}

// AddDID adds a DID with the given methods.
func (w *World) AddDID(id string, vms ...VM) *did.Doc {
	doc := &did.Doc{
		Context: []interface{}{"https://www.w3.org/ns/did/v1", "https://w3id.org/security/suites/jws-2020/v1"},
		ID:      id,
	}

	for _, v := range vms {
		m := v.Method(id)

		if !v.Embedded {
			doc.VerificationMethod = append(doc.VerificationMethod, *m)
		}

		rels := v.Rels
		if rels == nil && !v.ListOnly {
			rels = AllRels
		}

		for _, r := range rels {
			ver := *did.NewReferencedVerification(m, r)
			if v.Embedded {
				ver = *did.NewEmbeddedVerification(m, r)
			}

			switch r {
			case did.Authentication:
				doc.Authentication = append(doc.Authentication, ver)
			case did.AssertionMethod:
				doc.AssertionMethod = append(doc.AssertionMethod, ver)
			case did.CapabilityDelegation:
				doc.CapabilityDelegation = append(doc.CapabilityDelegation, ver)
			case did.CapabilityInvocation:
				doc.CapabilityInvocation = append(doc.CapabilityInvocation, ver)
			case did.KeyAgreement:
				doc.KeyAgreement = append(doc.KeyAgreement, ver)
			}
		}
	}

	w.mu.Lock()
	defer w.mu.Unlock()

	w.docs[id] = doc

	return doc
}

// Method makes the did.VerificationMethod of v for the DID.
func (v VM) Method(id string) *did.VerificationMethod {
	typ := v.Type
	if typ == "" {
		typ = "JsonWebKey2020"
		if v.Key.Kind == BBS {
			typ = "Bls12381G2Key2020"
		}
	}

	vmID := v.ID
	if vmID == "" {
		vmID = id + "#" + v.Fragment
	}

	if v.Raw != nil {
		return did.NewVerificationMethodFromBytes(vmID, typ, id, v.Raw)
	}

	if v.Bytes {
		return did.NewVerificationMethodFromBytes(vmID, typ, id, v.Key.PubBytes)
	}

	m, err := did.NewVerificationMethodFromJWK(vmID, typ, id, v.Key.JWK)
	if err != nil {
		panic(err)
	}

	return m
}

// Remove forgets a DID.
func (w *World) Remove(id string) {
	w.mu.Lock()
	defer w.mu.Unlock()

	delete(w.docs, id)
}

// Resolve implements the DID resolver.
func (w *World) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	w.mu.RLock()
	defer w.mu.RUnlock()

	d, ok := w.docs[id]
	if !ok {
		return nil, fmt.Errorf("DID %q does not exist", id)
	}

	return &did.DocResolution{DIDDocument: d}, nil
}

// Create implements vdrapi.Registry.
func (w *World) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("not supported")
}

// Update implements vdrapi.Registry.
func (w *World) Update(*did.Doc, ...vdrapi.DIDMethodOption) error { return errors.New("not supported") }

// Deactivate implements vdrapi.Registry.
func (w *World) Deactivate(string, ...vdrapi.DIDMethodOption) error {
	return errors.New("not supported")
}

// Close implements vdrapi.Registry.
func (w *World) Close() error { return nil }

// Checker is the default proof checker over the world's DIDs.
func (w *World) Checker() *checker.ProofChecker {
	return defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w))
}

// Descriptor returns the JWT proof descriptor of a kind.
func Descriptor(kind Kind) proofdesc.JWTProofDescriptor {
	switch kind {
	case EdDSA:
		return eddsa.New()
	case ES256:
		return es256.New()
	case ES384:
		return es384.New()
	case ES521:
		return es521.New()
	case ES256K:
		return es256k.New()
	case RS256:
		return rs256.New()
	case PS256:
		return ps256.New()
	}

	panic("no descriptor for " + kind)
}

// AllDescriptors are the descriptors of all JWT kinds.
func AllDescriptors() []proofdesc.JWTProofDescriptor {
	var out []proofdesc.JWTProofDescriptor
	for _, k := range JWTKinds {
		out = append(out, Descriptor(k))
	}

	return out
}

// EmbeddedChecker is a checker holding just one public key (as JWK).
func EmbeddedChecker(k *Key) *checker.EmbeddedVMProofChecker {
	return checker.NewEmbeddedJWKProofChecker(k.JWK,
		checker.WithSignatureVerifiers(ed25519.New(), bbs.NewBBSG2SignatureVerifier(),
			rsa.NewPS256(), rsa.NewRS256(),
			ecdsa.NewSecp256k1(), ecdsa.NewES256(), ecdsa.NewES384(), ecdsa.NewES521()),
		checker.WithJWTAlg(AllDescriptors()...))
}

// Creator is the library's proof creator signing everything with the key.
func (k *Key) Creator() *creator.ProofCreator {
	opts := []creator.Opt{
		creator.WithLDProofType(bbsblssignature2020.New(), k),
		creator.WithLDProofType(ecdsasecp256k1signature2019.New(), k),
		creator.WithLDProofType(ed25519signature2018.New(), k),
		creator.WithLDProofType(ed25519signature2020.New(), k),
		creator.WithLDProofType(jsonwebsignature2020.New(), k),
	}

	if k.Kind != BBS {
		opts = append(opts, creator.WithJWTAlg(Descriptor(k.Kind), k))
	}

	return creator.New(opts...)
}

var (
	loaderOnce sync.Once
	loader     ld.DocumentLoader
	loaderErr  error
)

// Extra contexts served besides the ones the test loader of did-go carries.
var extraContexts []ldcontext.Document

// Loader is the offline JSON-LD document loader.
func Loader() ld.DocumentLoader {
	loaderOnce.Do(func() {
		l, err := ldtestutil.DocumentLoader(extraContexts...)
		loader, loaderErr = l, err
	})

	if loaderErr != nil {
		panic(loaderErr)
	}

	return loader
}

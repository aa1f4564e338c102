package props

import (
	"bytes"
	"encoding/hex"
	"math/big"
	"strings"
	"testing"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/cwt"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/verifiable"
	vcwt "github.com/trustbloc/vc-go/verifiable/cwt"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

// cborHead writes a CBOR head of the given major type in its shortest form.
func cborHead(major byte, n int) []byte {
	switch {
	case n < 24:
		return []byte{major<<5 | byte(n)}
	case n < 256:
		return []byte{major<<5 | 24, byte(n)}
	case n < 65536:
		return []byte{major<<5 | 25, byte(n >> 8), byte(n)}
	default:
		return []byte{major<<5 | 26, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
}

func cborBytes(b []byte) []byte { return append(cborHead(2, len(b)), b...) }

// sigStructure is what RFC 9052 section 4.4 has signed for COSE_Sign1 without external data.
func sigStructure(protected, payload []byte) []byte {
	out := append(cborHead(4, 4), cborHead(3, 10)...)
	out = append(out, "Signature1"...)
	out = append(out, cborBytes(protected)...)
	out = append(out, cborBytes(nil)...)

	return append(out, cborBytes(payload)...)
}

// sign1 is a COSE_Sign1 message taken apart.
type sign1 struct {
	tagged      bool
	protected   []byte
	unprotected []byte // encoded map
	payload     []byte
	sig         []byte
	wide        int // bytes that hold the length of the protected header, where more than the fewest
}

// cborWide writes a CBOR head of the given major type with its number in the given count of bytes, if that is enough.
func cborWide(major byte, n, count int) []byte {
	short := cborHead(major, n)
	if count < len(short) {
		return short
	}

	out := []byte{major<<5 | map[int]byte{1: 24, 2: 25, 4: 26, 8: 27}[count]}
	for i := count - 1; i >= 0; i-- {
		out = append(out, byte(uint64(n)>>(8*i)))
	}

	return out
}

// encode also tells where protected header, payload and signature lie.
func (s sign1) encode() (out []byte, spans map[string][2]int) {
	spans = map[string][2]int{}
	if s.tagged {
		out = append(out, 0xd2)
	}

	out = append(out, 0x84)
	put := func(name string, b []byte) {
		head := cborHead(2, len(b))
		if s.wide > 0 && name == "protected header" {
			head = cborWide(2, len(b), s.wide)
		}

		out = append(out, head...)
		spans[name] = [2]int{len(out), len(out) + len(b)}
		out = append(out, b...)
	}

	put("protected header", s.protected)

	out = append(out, s.unprotected...)

	put("payload", s.payload)
	put("signature", s.sig)

	return out, spans
}

// split takes a COSE_Sign1 message apart without the library.
func splitSign1(b []byte) (sign1, error) {
	var s sign1
	if len(b) > 0 && b[0] == 0xd2 {
		s.tagged = true
		b = b[1:]
	}

	var parts []cbor.RawMessage
	if err := cbor.Unmarshal(b, &parts); err != nil {
		return s, err
	}

	for i, p := range []*[]byte{&s.protected, nil, &s.payload, &s.sig} {
		if p == nil {
			s.unprotected = parts[i]

			continue
		}

		if err := cbor.Unmarshal(parts[i], p); err != nil {
			return s, err
		}
	}

	return s, nil
}

func mustCBOR(v any) []byte {
	em, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
	if err != nil {
		panic(err)
	}

	b, err := em.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}

var allCOSE = []cose.Algorithm{
	cose.AlgorithmEdDSA, cose.AlgorithmES256, cose.AlgorithmES384, cose.AlgorithmES512, cose.AlgorithmPS256,
	cose.AlgorithmRS256, cose.AlgorithmPS384, cose.AlgorithmPS512, -47, 0, 5, -8 - 256,
}

// coseKeyHex is the COSE_Key of a public key, written without the library: {1: kty, -1: crv, -2: x, -3: y}.
func coseKeyHex(k *vk.Key) string {
	m := map[int]any{}

	if k.Kind == vk.EdDSA {
		m[1], m[-1], m[-2] = 1, 6, k.PubBytes
	} else {
		m[1], m[-2], m[-3] = 2, k.PubBytes[1:1+k.Size], k.PubBytes[1+k.Size:]
		m[-1] = map[vk.Kind]int{vk.ES256: 1, vk.ES384: 2}[k.Kind]
	}

	return hex.EncodeToString(mustCBOR(m))
}

func drawCBOR(rt *rapid.T, depth int) any {
	switch rapid.IntRange(0, 5+2*depth).Draw(rt, "cborkind") {
	case 0:
		return vk.Str().Draw(rt, "s")
	case 1:
		return rapid.Int64().Draw(rt, "i")
	case 2:
		return []byte(vk.Str().Draw(rt, "b"))
	case 3:
		return rapid.Bool().Draw(rt, "t")
	case 4:
		return nil
	case 5:
		return rapid.Float64().Draw(rt, "f")
	case 6:
		return map[any]any{vk.Word().Draw(rt, "k"): drawCBOR(rt, depth-1), rapid.IntRange(0, 9).Draw(rt, "ki"): drawCBOR(rt, depth-1)}
	default:
		return []any{drawCBOR(rt, depth-1), drawCBOR(rt, depth-1)}
	}
}

const c02Rule = "every case signs a fresh message; distinct by (algorithm, payload, headers, change)"

// TestC02_Raw: tokens signed here (or by the library) against Parse, CheckProof and ParseAndCheckProof.
func TestC02_Raw(t *testing.T) {
	vk.Check(t, c02Rule, 4000, 60000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom(coseKinds).Draw(rt, "alg")
		key, other := vk.GetKey(kind, "a"), vk.GetKey(kind, "b")
		iss, foreign := "did:example:alice", "did:example:mallory"

		kinds := append([]vk.Kind{}, coseKinds...)
		extra := []vk.VM{{Fragment: "k1", Key: key}, {Fragment: "k2", Key: other}}

		for _, k := range append(kinds, vk.ES521, vk.ES256K) {
			extra = append(extra, vk.VM{Fragment: "x" + string(k), Key: vk.GetKey(k, "a")})
		}

		w.AddDID(iss, extra...)
		w.AddDID(foreign, vk.VM{Fragment: "k1", Key: other}, vk.VM{Fragment: "k3", Key: key})

		payload := map[any]any{1: iss, 6: 1700000000}
		for i := rapid.IntRange(0, 4).Draw(rt, "claims"); i > 0; i-- {
			payload[rapid.IntRange(7, 40).Draw(rt, "label")] = drawCBOR(rt, 2)
		}

		hasKid := vk.Coin(rt, "noKid", 4) == false
		embed := (kind == vk.EdDSA || kind == vk.ES256 || kind == vk.ES384) && (!hasKid || rapid.Bool().Draw(rt, "COSE_Key"))

		if !embed {
			hasKid = true
		}

		alg, kid, signer, want := coseAlg[kind], iss+"#k1", key, true
		expected := vk.Pick(rt, "expected issuer", iss, iss, "")

		if !hasKid {
			expected = "" // checking an issuer needs a key id
		}

		change := vk.Pick(rt, "change", "none", "none", "signer", "alg", "kid", "issuer", "payload", "flip", "headers", "signature", "empty signature", "expected", "algkey")
		if change == "alg" || change == "algkey" {
			a := rapid.SampledFrom(allCOSE).Draw(rt, "other alg")
			if a == alg {
				a = -1
			}

			alg, want = a, false

			if change == "algkey" {
				// another key of the same issuer, of a kind that would fit some algorithm, signs
				k := rapid.SampledFrom([]vk.Kind{vk.ES521, vk.ES256K, vk.RS256, vk.PS256, vk.ES256, vk.ES384, vk.EdDSA}).Draw(rt, "xkind")
				signer, kid = vk.GetKey(k, "a"), iss+"#x"+string(k)
				hasKid, embed = true, false
				ca, ok := coseAlg[k]
				want = ok && ca == alg
			}
		}

		switch change {
		case "signer":
			signer, want = other, false
		case "kid":
			if hasKid {
				kid, want = vk.Pick(rt, "kid", iss+"#k2", iss+"#k9", "#k1", iss, foreign+"#k1", "k1", " "+kid, iss+"#K1"), false
			}
		case "issuer":
			payload[1] = vk.Pick[any](rt, "other iss", foreign, foreign, "", nil, 5, true, []any{iss}, []byte(iss), vk.Near(rt, "near iss", iss))
		case "expected":
			if hasKid {
				expected, want = vk.Pick(rt, "other issuer", foreign, "did:example:nobody", iss+"x",
					strings.ToUpper(iss), iss[:len(iss)-1], iss+"/", iss+" "), false
			}
		}

		prot := map[any]any{1: int64(alg)}
		if hasKid {
			prot[4] = []byte(kid)
		}

		if embed {
			prot[proofdesc.COSEKeyHeader] = coseKeyHex(signer)
			if change == "signer" {
				prot[proofdesc.COSEKeyHeader] = coseKeyHex(key)
			}
		}

		if vk.Coin(rt, "more headers", 3) {
			prot[vk.Word().Draw(rt, "hname")] = vk.Str().Draw(rt, "hvalue")
		}

		m := sign1{tagged: true, protected: mustCBOR(prot), unprotected: mustCBOR(map[any]any{}), payload: mustCBOR(payload)}
		if vk.Coin(rt, "wide", 3) {
			m.wide = vk.Pick(rt, "wide", 1, 2, 2, 4, 8)
		}

		if rapid.Bool().Draw(rt, "unprotected") {
			m.unprotected = mustCBOR(map[any]any{16: "application/vc+ld+json+cose", "x": vk.Str().Draw(rt, "uh")})
		}

		tbs := sigStructure(m.protected, m.payload)

		var err error

		if vk.Coin(rt, "library signs", 2) && change != "alg" && change != "algkey" {
			m.sig, err = signer.Creator().SignCWT(cwt.SignParameters{KeyID: kid, CWTAlg: alg}, tbs)
		} else {
			m.sig, err = signer.Sign(tbs)
		}

		if err != nil {
			rt.Fatalf("sign: %v", err)
		}

		good := m

		switch change {
		case "payload":
			payload[6] = 1700000001
			if vk.Coin(rt, "add", 2) {
				payload[41] = "x"
			}

			m.payload, want = mustCBOR(payload), false
		case "headers":
			prot["added"] = "x"
			if vk.Coin(rt, "only alg", 3) {
				prot = map[any]any{1: int64(alg), 4: []byte(kid)}
				if bytes.Equal(mustCBOR(prot), m.protected) {
					prot["added"] = true
				}
			}

			m.protected, want = mustCBOR(prot), false
		case "signature":
			k := vk.Pick(rt, "sig change", "cut", "longer", "zero", "other message")

			switch k {
			case "cut":
				m.sig = m.sig[:len(m.sig)-1]
			case "longer":
				m.sig = append(append([]byte{}, m.sig...), 0)
			case "zero":
				m.sig = make([]byte, len(m.sig))
			default:
				m.sig, _ = signer.Sign(append(tbs, 1))
			}

			want = false
		case "empty signature":
			m.sig, want = nil, false
		}

		raw, spans := m.encode()

		if change == "flip" {
			name := vk.Pick(rt, "span", "protected header", "payload", "signature")
			sp := spans[name]
			i := rapid.IntRange(sp[0], sp[1]-1).Draw(rt, "byte")
			raw[i] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			want = false
			c.Class("flip in %s", name)
		}

		msg, err := cwt.Parse(raw)
		if err != nil {
			if want {
				rt.Fatalf("Parse refuses %x: %v", raw, err)
			}

			c.Class("refused by Parse")
			c.NonTrivial(raw)

			return
		}

		tv, err := vcwt.GetProofValue(msg)
		if err != nil {
			rt.Fatalf("GetProofValue: %v", err)
		}

		if parts, e := splitSign1(raw); e == nil && change != "flip" {
			if exp := sigStructure(parts.protected, parts.payload); !bytes.Equal(exp, tv) {
				rt.Fatalf("to-be-signed bytes %x, expected %x", tv, exp)
			}

			if !bytes.Equal(msg.Payload, parts.payload) || !bytes.Equal(msg.Signature, parts.sig) {
				rt.Fatalf("Parse gives another payload or signature")
			}
		}

		var exp *string
		if expected != "" || rapid.Bool().Draw(rt, "empty expectation") {
			exp = &expected
		}

		err = cwt.CheckProof(msg, w.Checker(), exp, tv, msg.Signature)
		if (err == nil) != want {
			rt.Fatalf("CheckProof: expected acceptance %v, got %v\nchange %s kind %s alg %v kid %q embed %v expected %q\n%x", want, err, change, kind, alg, kid, embed, expected, raw)
		}

		// the combined call needs a COSE_Key header; with an issuer check it needs a key id too
		checkIss := rapid.Bool().Draw(rt, "check issuer")
		want2 := want && embed && (!checkIss || hasKid && payload[1] == iss)

		if change == "expected" {
			want2 = embed && (!checkIss || hasKid)
		}

		m2, p2, err := cwt.ParseAndCheckProof(raw, w.Checker(), checkIss)
		if (err == nil) != want2 {
			rt.Fatalf("ParseAndCheckProof(issuer %v): expected acceptance %v, got %v\nchange %s kind %s kid %q (%v) embed %v\n%x", checkIss, want2, err, change, kind, kid, hasKid, embed, raw)
		}

		if err == nil && (!bytes.Equal(p2, good.payload) || !bytes.Equal(m2.Signature, good.sig)) {
			rt.Fatalf("ParseAndCheckProof returns other bytes than were signed")
		}

		// another key that was never involved must not verify it
		if want && hasKid {
			w2 := vk.NewWorld()
			w2.AddDID(iss, vk.VM{Fragment: "k1", Key: vk.GetKey(kind, "c")})

			if cwt.CheckProof(msg, w2.Checker(), &expected, tv, msg.Signature) == nil {
				rt.Fatalf("verifies under another key")
			}
		}

		c.Class("%s", kind)
		c.Class("%s, accepted %v", change, want)
		c.NonTrivial(raw)
		c.Sample(hex.EncodeToString(raw))
	})
}

// TestC02_Credential: credentials secured as CWT, altered at the byte level.
func TestC02_Credential(t *testing.T) {
	vk.Check(t, c02Rule, 1500, 20000, func(rt *rapid.T, c *vk.Case) {
		w := vk.NewWorld()
		kind := rapid.SampledFrom(coseKinds).Draw(rt, "alg")
		p := addParty(w, issDID, vk.GetKey(kind, "a"))
		mallory := addParty(w, "did:example:mallory", vk.GetKey(kind, "b"))
		_, _, cred := drawSecured(rt, p.did, false)

		signed, err := cred.CreateSignedCOSEVC(coseAlg[kind], p.key.Creator(), p.kid)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}

		raw, err := signed.MarshalAsCWTLD()
		if err != nil {
			rt.Fatalf("MarshalAsCWTLD: %v", err)
		}

		m, err := splitSign1(raw)
		if err != nil {
			rt.Fatalf("token: %v", err)
		}

		// the signature is that of the signer over the standard structure
		ref := vk.NewWorld()
		ref.AddDID(p.did, vk.VM{Fragment: "k1", Key: p.key})

		if !refVerify(p.key, sigStructure(m.protected, m.payload), m.sig) {
			rt.Fatalf("the credential's signature is not over the Sig_structure")
		}

		var prot map[any]any
		if err := cbor.Unmarshal(m.protected, &prot); err != nil {
			rt.Fatalf("protected header: %v", err)
		}

		if len(prot) != 2 || string(prot[uint64(4)].([]byte)) != p.kid {
			rt.Fatalf("protected header %v", prot)
		}

		change := vk.Pick(rt, "change", "none", "flip", "flip", "flip", "payload", "signer", "foreign signer", "kid", "alg", "signature")
		enc, spans := m.encode()

		switch change {
		case "flip":
			sp := spans[vk.Pick(rt, "span", "protected header", "payload", "signature")]
			enc[rapid.IntRange(sp[0], sp[1]-1).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "payload":
			var claims map[string]any
			if err := cbor.Unmarshal(m.payload, &claims); err != nil {
				rt.Fatalf("payload: %v", err)
			}

			claims["extra"] = true
			m.payload = mustCBOR(claims)
			enc, _ = m.encode()
		case "signer", "foreign signer":
			k := vk.GetKey(kind, "b")

			if change == "foreign signer" {
				m.protected = mustCBOR(map[any]any{1: int64(coseAlg[kind]), 4: []byte(mallory.kid)})
			}

			m.sig, _ = k.Sign(sigStructure(m.protected, m.payload))
			enc, _ = m.encode()
		case "kid":
			m.protected = mustCBOR(map[any]any{1: int64(coseAlg[kind]), 4: []byte(p.did + "#k2")})
			m.sig, _ = p.key.Sign(sigStructure(m.protected, m.payload))
			enc, _ = m.encode()
		case "alg":
			a := rapid.SampledFrom(allCOSE).Draw(rt, "other alg")
			if a == coseAlg[kind] {
				a = -1
			}

			m.protected = mustCBOR(map[any]any{1: int64(a), 4: []byte(p.kid)})
			m.sig, _ = p.key.Sign(sigStructure(m.protected, m.payload))
			enc, _ = m.encode()
		case "signature":
			m.sig = new(big.Int).SetBytes(m.sig).Bytes()
			m.sig[len(m.sig)/2]++
			enc, _ = m.encode()
		}

		in := enc
		if rapid.Bool().Draw(rt, "hex") {
			in = []byte(hex.EncodeToString(enc))
		}

		_, err = verifiable.ParseCredential(in, parseOpts(verifiable.WithProofChecker(w.Checker()))...)
		if (err == nil) != (change == "none") {
			rt.Fatalf("change %q: %v\n%x", change, err, enc)
		}

		c.Class("%s", kind)
		c.Class("%s", change)
		c.NonTrivial(enc)
		c.Sample(hex.EncodeToString(enc))
	})
}

// TestC02_Algorithms checks the COSE algorithm named for each key type.
func TestC02_Algorithms(t *testing.T) {
	vk.Enum(t, "every key type of the key manager", func(t *testing.T, next func() *vk.Case) {
		want := map[kms.KeyType]cose.Algorithm{
			kms.ED25519Type: cose.AlgorithmEdDSA, kms.ECDSAP256TypeDER: cose.AlgorithmES256,
			kms.ECDSAP256TypeIEEEP1363: cose.AlgorithmES256, kms.ECDSAP384TypeDER: cose.AlgorithmES384,
			kms.ECDSAP384TypeIEEEP1363: cose.AlgorithmES384, kms.RSARS256Type: cose.AlgorithmRS256,
			kms.RSAPS256Type: cose.AlgorithmPS256,
		}

		for _, kt := range []kms.KeyType{
			kms.AES256GCMType, kms.ECDSAP256TypeDER, kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP384TypeDER,
			kms.ECDSAP384TypeIEEEP1363, kms.ED25519Type, kms.RSARS256Type, kms.RSAPS256Type, kms.HMACSHA256Tag256Type,
			kms.NISTP256ECDHKWType, kms.NISTP384ECDHKWType, kms.X25519ECDHKWType, kms.BLS12381G2Type, "", "x",
		} {
			c := next()
			c.NonTrivial(string(kt))

			algo, err := verifiable.KeyTypeToCWSAlgo(kt)
			if a, ok := want[kt]; ok != (err == nil) || algo != a {
				t.Errorf("key type %q: algorithm %v, %v, expected %v", kt, algo, err, a)
			}

			c.Sample(map[string]any{"keyType": string(kt), "algorithm": algo.String()})
		}
	})
}

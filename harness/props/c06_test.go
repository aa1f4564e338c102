package props

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"slices"
	"strings"
	"testing"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"
	"pgregory.net/rapid"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	ecdsaver "github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	edver "github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	rsaver "github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/zzverif/vk"
)

type sigVerifier interface {
	SupportedKeyType(keyType kms.KeyType) bool
	Verify(sig, msg []byte, pub *pubkey.PublicKey) error
}

func verifierFor(kind vk.Kind) sigVerifier {
	switch kind {
	case vk.EdDSA:
		return edver.New()
	case vk.ES256:
		return ecdsaver.NewES256()
	case vk.ES384:
		return ecdsaver.NewES384()
	case vk.ES521:
		return ecdsaver.NewES521()
	case vk.ES256K:
		return ecdsaver.NewSecp256k1()
	case vk.RS256:
		return rsaver.NewRS256()
	case vk.PS256:
		return rsaver.NewPS256()
	case vk.BBS:
		return bbs.NewBBSG2SignatureVerifier()
	}

	panic("kind")
}

func derTypeOf(kind vk.Kind) kms.KeyType {
	switch kind {
	case vk.ES256:
		return kms.ECDSAP256TypeDER
	case vk.ES384:
		return kms.ECDSAP384TypeDER
	case vk.ES521:
		return kms.ECDSAP521TypeDER
	default:
		return kms.ECDSASecp256k1TypeDER
	}
}

func asBytesKey(typ kms.KeyType, b []byte) *pubkey.PublicKey {
	return &pubkey.PublicKey{Type: typ, BytesKey: &pubkey.BytesKey{Bytes: b}}
}

// strictDER parses exactly SEQUENCE{INTEGER r, INTEGER s} with minimal encoding and nothing after it.
func strictDER(sig []byte) (r, s *big.Int, ok bool) {
	var v struct{ R, S *big.Int }

	rest, err := asn1.Unmarshal(sig, &v)
	if err != nil || len(rest) != 0 {
		return nil, nil, false
	}

	again, err := asn1.Marshal(v)
	if err != nil || string(again) != string(sig) {
		return nil, nil, false
	}

	return v.R, v.S, true
}

// TestC06_ECDSA compares with the textbook verification equation.
func TestC06_ECDSA(t *testing.T) {
	vk.Check(t, "curve, key form, message, candidate signature by category; non-trivial = candidate has an acceptable length or is DER; distinct by (curve, message, candidate)",
		3000, 60000, func(rt *rapid.T, c *vk.Case) {
			kind := rapid.SampledFrom([]vk.Kind{vk.ES256, vk.ES256K, vk.ES384, vk.ES521}).Draw(rt, "kind")
			key := vk.GetKey(kind, vk.Pick(rt, "key", "a", "b", "c"))
			n := kind.Curve().Params().N
			msg := rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "msg")
			r, s := key.SignRS(msg)
			p1363 := func(r, s *big.Int) []byte {
				out := make([]byte, 2*key.Size)
				r.FillBytes(out[:key.Size])
				s.FillBytes(out[key.Size:])

				return out
			}
			der := func(r, s *big.Int) []byte {
				b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
				if err != nil {
					panic(err)
				}

				return b
			}

			cat := rapid.SampledFrom([]string{
				"valid", "der", "highS", "derHighS", "flip", "derFlip", "swap", "otherkey", "othermsg", "trunc", "extend", "derTrail", "derNeg",
				"zeroR", "zeroS", "zeros", "addN", "derNonMin", "random", "derOtherMsg", "leadingzero", "derSeqTrail", "derAddN", "empty",
			}).Draw(rt, "cat")

			var sig []byte

			switch cat {
			case "valid":
				sig = p1363(r, s)
			case "der":
				sig = der(r, s)
			case "highS":
				sig = p1363(r, new(big.Int).Sub(n, s))
			case "derHighS":
				sig = der(r, new(big.Int).Sub(n, s))
			case "flip", "derFlip":
				sig = p1363(r, s)
				if cat == "derFlip" {
					sig = der(r, s)
				}

				sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			case "swap":
				sig = p1363(s, r)
			case "otherkey":
				sig = p1363(vk.GetKey(kind, "z").SignRS(msg))
			case "othermsg":
				sig = p1363(key.SignRS(append([]byte("x"), msg...)))
			case "derOtherMsg":
				sig = der(key.SignRS(append(append([]byte{}, msg...), 0)))
			case "trunc":
				sig = p1363(r, s)
				sig = sig[:rapid.IntRange(0, len(sig)-1).Draw(rt, "len")]
			case "extend":
				sig = append(p1363(r, s), rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(rt, "ext")...)
			case "leadingzero":
				sig = append([]byte{0}, p1363(r, s)...)
			case "derTrail":
				sig = append(der(r, s), rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(rt, "ext")...)
			case "derSeqTrail":
				sig, _ = asn1.Marshal(struct{ R, S, X *big.Int }{r, s, big.NewInt(1)})
			case "derNeg":
				sig = der(new(big.Int).Neg(r), s)
			case "zeroR":
				sig = p1363(big.NewInt(0), s)
			case "zeroS":
				sig = p1363(r, big.NewInt(0))
			case "zeros":
				sig = make([]byte, 2*key.Size)
			case "addN":
				if sn := new(big.Int).Add(s, n); (sn.BitLen()+7)/8 <= key.Size {
					sig = p1363(r, sn)
				} else {
					sig = p1363(r, n)
				}
			case "derAddN":
				sig = der(new(big.Int).Add(r, n), s)
			case "derNonMin":
				rb := append([]byte{0, 0}, r.Bytes()...)
				sb := append([]byte{0}, s.Bytes()...)
				body := append(append([]byte{2, byte(len(rb))}, rb...), append([]byte{2, byte(len(sb))}, sb...)...)
				sig = append([]byte{0x30, 0x81, byte(len(body))}, body...)
			case "random":
				sig = rapid.SliceOfN(rapid.Byte(), 0, 2*key.Size+12).Draw(rt, "sig")
			}

			want := false

			switch {
			case len(sig) == 2*key.Size:
				h := key.Hash.New()
				h.Write(msg)
				want = refECDSA(key.Pub.(*ecdsa.PublicKey), h.Sum(nil), new(big.Int).SetBytes(sig[:key.Size]), new(big.Int).SetBytes(sig[key.Size:]))
			case len(sig) > 2*key.Size:
				if dr, ds, ok := strictDER(sig); ok {
					h := key.Hash.New()
					h.Write(msg)
					want = refECDSA(key.Pub.(*ecdsa.PublicKey), h.Sum(nil), dr, ds)
				}
			}

			v := verifierFor(kind)

			for _, typ := range []kms.KeyType{key.KMSType, derTypeOf(kind)} {
				for form, pk := range map[string]*pubkey.PublicKey{
					"bytes": asBytesKey(typ, key.PubBytes),
					"jwk":   {Type: typ, JWK: key.JWK},
				} {
					sigCopy, msgCopy := string(sig), string(msg)

					err := v.Verify(slices.Clip(sig), msg, pk)
					if (err == nil) != want {
						rt.Fatalf("%s %s %s (%s key): verifier says %v, reference says valid=%v\nmsg %x\nsig %x", kind, cat, typ, form, err, want, msg, sig)
					}

					if string(sig) != sigCopy || string(msg) != msgCopy {
						rt.Fatalf("verifier changed its arguments")
					}
				}
			}

			c.Class("%s", cat)
			c.Class("valid=%v", want)
			c.Class("curve=%s", kind)

			if len(sig) >= 2*key.Size {
				c.NonTrivial(string(kind), msg, sig)
			}

			c.Sample(fmt.Sprintf("%s %s valid=%v msg=%x sig=%x", kind, cat, want, msg, sig))
		})
}

// TestC06_EdRSA compares with the standard library.
func TestC06_EdRSA(t *testing.T) {
	vk.Check(t, "Ed25519 / RSA candidates by category; non-trivial = right length; distinct by (kind, message, candidate)", 2500, 40000,
		func(rt *rapid.T, c *vk.Case) {
			kind := rapid.SampledFrom([]vk.Kind{vk.EdDSA, vk.RS256, vk.PS256}).Draw(rt, "kind")
			key := vk.GetKey(kind, vk.Pick(rt, "key", "a", "b", "c"))
			msg := rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "msg")
			good, err := key.Sign(msg)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			cat := rapid.SampledFrom([]string{
				"valid", "flip", "trunc", "extend", "othermsg", "otherkey", "otherscheme", "otherhash", "random", "empty", "prefixzero", "malleable",
			}).Draw(rt, "cat")

			sig := append([]byte{}, good...)

			switch cat {
			case "flip":
				sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			case "trunc":
				sig = sig[:rapid.IntRange(0, len(sig)-1).Draw(rt, "len")]
			case "extend":
				sig = append(sig, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(rt, "ext")...)
			case "prefixzero":
				sig = append([]byte{0}, sig...)
			case "othermsg":
				sig, _ = key.Sign(append([]byte{1}, msg...))
			case "otherkey":
				lab := "b"
				if key.Label == "b" {
					lab = "a"
				}

				sig, _ = vk.GetKey(kind, lab).Sign(msg)
			case "otherscheme":
				switch kind {
				case vk.RS256:
					sig, _ = vk.GetKey(vk.PS256, key.Label).Sign(msg)
				case vk.PS256:
					sig, _ = vk.GetKey(vk.RS256, key.Label).Sign(msg)
				}
			case "otherhash":
				if priv, ok := key.Priv.(*rsa.PrivateKey); ok {
					d := sha512.Sum512(msg)
					if kind == vk.RS256 {
						sig, _ = rsa.SignPKCS1v15(nil, priv, crypto.SHA512, d[:])
					} else {
						d2 := sha256.Sum256(msg)
						sig, _ = rsa.SignPSS(zeroReader{}, priv, crypto.SHA256, d2[:], &rsa.PSSOptions{SaltLength: rapid.SampledFrom([]int{0, 8, 20, 32, 64}).Draw(rt, "salt")})
					}
				}
			case "malleable":
				if kind == vk.EdDSA { // S + L
					l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
					sb := reverse(sig[32:])
					sum := new(big.Int).Add(new(big.Int).SetBytes(sb), l)
					if len(sum.Bytes()) <= 32 {
						out := make([]byte, 32)
						sum.FillBytes(out)
						copy(sig[32:], reverse(out))
					}
				}
			case "random":
				sig = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "sig")
			case "empty":
				sig = nil
			}

			want := refVerify(key, msg, sig)
			v := verifierFor(kind)

			for form, pk := range map[string]*pubkey.PublicKey{
				"bytes": asBytesKey(key.KMSType, key.PubBytes), "jwk": {Type: key.KMSType, JWK: key.JWK},
			} {
				if err := v.Verify(slices.Clip(sig), msg, pk); (err == nil) != want {
					rt.Fatalf("%s %s (%s key): verifier says %v, reference says valid=%v\nmsg %x\nsig %x", kind, cat, form, err, want, msg, sig)
				}
			}

			c.Class("%s", cat)
			c.Class("%s valid=%v", kind, want)

			if len(sig) == len(good) {
				c.NonTrivial(string(kind), msg, sig)
			}

			c.Sample(fmt.Sprintf("%s %s valid=%v sig=%x", kind, cat, want, sig))
		})
}

type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	clear(p)

	return len(p), nil
}

func reverse(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}

	return out
}

// TestC06_Keys gives verifiers malformed, mistyped and foreign keys.
func TestC06_Keys(t *testing.T) {
	all := append(append([]vk.Kind{}, vk.JWTKinds...), vk.BBS)

	vk.Check(t, "valid signature checked with a malformed, foreign or mislabelled key; non-trivial = all; distinct by (verifier, key)", 1500, 20000,
		func(rt *rapid.T, c *vk.Case) {
			kind := rapid.SampledFrom(all).Draw(rt, "kind")
			if kind == vk.BBS && !vk.Coin(rt, "bbs", 8) {
				kind = vk.EdDSA
			}

			key := vk.GetKey(kind, "a")
			msg := []byte(vk.Word().Draw(rt, "msg"))
			sig, _ := key.Sign(msg)
			v := verifierFor(kind)

			if err := v.Verify(sig, msg, &pubkey.PublicKey{Type: key.KMSType, JWK: key.JWK}); err != nil {
				rt.Fatalf("valid signature refused: %v", err)
			}

			var pk *pubkey.PublicKey

			cat := rapid.SampledFrom([]string{
				"nokey", "emptybytes", "nilbytes", "truncated", "extended", "flipped", "random", "foreignjwk", "foreignbytes", "mislabelled", "emptyjwk", "offcurve",
				"compressed", "samekindother",
			}).Draw(rt, "cat")

			switch cat {
			case "nokey":
				pk = &pubkey.PublicKey{Type: key.KMSType}
			case "emptybytes":
				pk = asBytesKey(key.KMSType, []byte{})
			case "nilbytes":
				pk = asBytesKey(key.KMSType, nil)
			case "truncated":
				pk = asBytesKey(key.KMSType, key.PubBytes[:rapid.IntRange(0, len(key.PubBytes)-1).Draw(rt, "len")])
			case "extended":
				pk = asBytesKey(key.KMSType, append(append([]byte{}, key.PubBytes...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "ext")...))
			case "flipped":
				b := append([]byte{}, key.PubBytes...)
				lo := 0
				if isRSA(kind) {
					lo = len(b) / 2 // inside the modulus: outside it may stay the same key in another spelling
					b[lo+rapid.IntRange(0, 20).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
				} else {
					b[rapid.IntRange(lo, len(b)-1).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
				}

				pk = asBytesKey(key.KMSType, b)
			case "random":
				pk = asBytesKey(key.KMSType, rapid.SliceOfN(rapid.Byte(), 0, 140).Draw(rt, "key"))
			case "foreignjwk", "foreignbytes":
				var others []vk.Kind

				for _, k := range all {
					if k != kind && !(isRSA(k) && isRSA(kind)) {
						others = append(others, k)
					}
				}

				o := vk.GetKey(rapid.SampledFrom(others).Draw(rt, "other"), "a")
				pk = &pubkey.PublicKey{Type: key.KMSType, JWK: o.JWK}

				if cat == "foreignbytes" {
					pk = asBytesKey(key.KMSType, o.PubBytes)
				}
			case "mislabelled":
				o := vk.GetKey(rapid.SampledFrom(all).Filter(func(k vk.Kind) bool { return k != kind }).Draw(rt, "label"), "a")
				pk = &pubkey.PublicKey{Type: o.KMSType, JWK: key.JWK}
			case "emptyjwk":
				pk = &pubkey.PublicKey{Type: key.KMSType, JWK: &jwk.JWK{}}
			case "offcurve":
				b := append([]byte{}, key.PubBytes...)
				b[len(b)-1] ^= 1
				pk = asBytesKey(key.KMSType, b)

				if isRSA(kind) {
					pk = asBytesKey(key.KMSType, nil)
				}
			case "compressed":
				pk = asBytesKey(key.KMSType, key.PubBytes[:len(key.PubBytes)/2])

				if p, ok := key.Pub.(*ecdsa.PublicKey); ok {
					pk = asBytesKey(key.KMSType, elliptic.MarshalCompressed(p.Curve, p.X, p.Y))
				}
			case "samekindother":
				pk = &pubkey.PublicKey{Type: key.KMSType, JWK: vk.GetKey(kind, "b").JWK}
			}

			if err := v.Verify(sig, msg, pk); err == nil {
				rt.Fatalf("%s verifier accepted a signature under a %s key %s", kind, cat, vk.JS(pk))
			}

			for _, k := range all {
				if want := k == kind; v.SupportedKeyType(vk.GetKey(k, "a").KMSType) != want {
					rt.Fatalf("verifier %s: SupportedKeyType(%s) != %v", kind, vk.GetKey(k, "a").KMSType, want)
				}
			}

			c.Class("%s", cat)
			c.Class("kind=%s", kind)
			c.NonTrivial(string(kind), cat, pk)
		})
}

// TestC06_BBS checks BBS+ signatures over message lines.
func TestC06_BBS(t *testing.T) {
	vk.Check(t, "BBS+ signature over 1..6 lines, then an alteration of lines, order, key or signature; non-trivial = all; distinct by lines and alteration", 60, 600,
		func(rt *rapid.T, c *vk.Case) {
			key := vk.GetKey(vk.BBS, vk.Pick(rt, "key", "a", "b"))
			lines := rapid.SliceOfN(rapid.StringMatching(`[a-z<>:#" ]{0,8}[a-z]`), 1, 6).Draw(rt, "lines")
			msg := strings.Join(lines, "\n") + vk.Pick(rt, "nl", "", "\n")

			var ms [][]byte
			for _, l := range lines {
				ms = append(ms, []byte(l))
			}

			sig, err := bbs12381g2pub.New().SignWithKey(ms, key.Priv.(*bbs12381g2pub.PrivateKey))
			if err != nil {
				rt.Fatalf("%v", err)
			}

			v := bbs.NewBBSG2SignatureVerifier()
			check := func(sig []byte, msg string, k *vk.Key) error {
				e1 := v.Verify(slices.Clip(append([]byte{}, sig...)), []byte(msg), asBytesKey(kms.BLS12381G2Type, k.PubBytes))
				e2 := v.Verify(slices.Clip(append([]byte{}, sig...)), []byte(msg), &pubkey.PublicKey{Type: kms.BLS12381G2Type, JWK: k.JWK})

				if (e1 == nil) != (e2 == nil) {
					rt.Fatalf("bytes and JWK form of the key disagree: %v / %v", e1, e2)
				}

				return e1
			}

			if err := check(sig, msg, key); err != nil {
				rt.Fatalf("valid BBS+ signature refused: %v", err)
			}

			alt := append([]string{}, lines...)
			how := vk.Pick(rt, "how", "line", "drop", "add", "swap", "sig", "trunc", "key", "dup")
			k2, s2 := key, append([]byte{}, sig...)

			switch how {
			case "line":
				alt[rapid.IntRange(0, len(alt)-1).Draw(rt, "i")] += "x"
			case "drop":
				i := rapid.IntRange(0, len(alt)-1).Draw(rt, "i")
				alt = append(alt[:i], alt[i+1:]...)
			case "add":
				alt = append(alt, "extra")
			case "dup":
				alt = append(alt, alt[0])
			case "swap":
				i, j := rapid.IntRange(0, len(alt)-1).Draw(rt, "i"), rapid.IntRange(0, len(alt)-1).Draw(rt, "j")
				if alt[i] == alt[j] {
					return
				}

				alt[i], alt[j] = alt[j], alt[i]
			case "sig":
				s2[rapid.IntRange(0, len(s2)-1).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			case "trunc":
				s2 = s2[:rapid.IntRange(0, len(s2)-1).Draw(rt, "len")]
			case "key":
				k2 = vk.GetKey(vk.BBS, "z")
			}

			if err := check(s2, strings.Join(alt, "\n"), k2); err == nil {
				rt.Fatalf("altered (%s) BBS+ signature accepted: %q -> %q", how, lines, alt)
			}

			c.Class("%s", how)
			c.NonTrivial(how, msg)
		})
}

// TestC06_BBSProof checks BBS+ signature proofs over the revealed lines.
func TestC06_BBSProof(t *testing.T) {
	vk.Check(t, "BBS+ signature proof revealing some of 1..8 lines, then an alteration of lines, order, key, nonce or of the proof's bytes, counts and lengths; non-trivial = all; distinct by lines and alteration", 200, 3000,
		func(rt *rapid.T, c *vk.Case) {
			key := vk.GetKey(vk.BBS, vk.Pick(rt, "key", "a", "b"))
			lines := rapid.SliceOfN(rapid.StringMatching(`[a-z<>:#" ]{0,8}[a-z]`), 1, 8).Draw(rt, "lines")
			nonce := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "nonce")

			var ms [][]byte
			for _, l := range lines {
				ms = append(ms, []byte(l))
			}

			sig, err := bbs12381g2pub.New().SignWithKey(ms, key.Priv.(*bbs12381g2pub.PrivateKey))
			if err != nil {
				rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
			}

			var (
				at    []int
				shown []string
			)

			for i, l := range lines {
				if vk.Coin(rt, "reveal", 2) || i == len(lines)-1 && len(at) == 0 {
					at, shown = append(at, i), append(shown, l)
				}
			}

			sp, err := bbs12381g2pub.New().DeriveProof(ms, sig, nonce, key.PubBytes, at)
			if err != nil {
				rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
			}

			v := bbs.NewBBSG2SignatureProofVerifier()
			check := func(sp []byte, msg string, nonce []byte, k *vk.Key) (err error) {
				sp = slices.Clip(append(make([]byte, 0, len(sp)), sp...))

				p, err := proof.NewProof(map[string]any{
					"type": "BbsBlsSignatureProof2020", "created": "2020-01-01T00:00:00Z", "proofValue": "AAAA",
					"nonce": base64.StdEncoding.EncodeToString(nonce), "verificationMethod": "did:example:issuer#bbs", "proofPurpose": "assertionMethod",
				})
				if err != nil {
					rt.Fatalf("VERIF-HARNESS-ERROR %v", err)
				}

				before := append([]byte{}, sp...)

				err = v.Verify(sp, []byte(msg), asBytesKey(kms.BLS12381G2Type, k.PubBytes), p)

				if !bytes.Equal(before, sp) {
					rt.Fatalf("verifying changed the proof")
				}

				return err
			}

			if err := check(sp, strings.Join(shown, "\n")+vk.Pick(rt, "nl", "", "\n"), nonce, key); err != nil {
				rt.Fatalf("valid BBS+ signature proof refused: %v", err)
			}

			alt := append([]string{}, shown...)
			how := vk.Pick(rt, "how", "line", "drop", "add", "swap", "flip", "flip", "trunc", "trunc", "trunc", "extend", "count", "length", "key", "dup", "nonce", "signature", "hidden")
			k2, s2, n2 := key, append([]byte{}, sp...), append([]byte{}, nonce...)
			head := 2 + len(lines)/8 + 1

			switch how {
			case "line":
				alt[rapid.IntRange(0, len(alt)-1).Draw(rt, "i")] += "x"
			case "drop":
				i := rapid.IntRange(0, len(alt)-1).Draw(rt, "i")
				alt = append(alt[:i], alt[i+1:]...)
			case "add":
				alt = append(alt, "extra")
			case "dup":
				alt = append(alt, alt[0])
			case "hidden":
				if len(at) == len(lines) {
					return
				}

				alt = lines // all of them, as if they had been revealed
			case "swap":
				i, j := rapid.IntRange(0, len(alt)-1).Draw(rt, "i"), rapid.IntRange(0, len(alt)-1).Draw(rt, "j")
				if alt[i] == alt[j] {
					return
				}

				alt[i], alt[j] = alt[j], alt[i]
			case "flip":
				s2[rapid.IntRange(0, len(s2)-1).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			case "trunc":
				s2 = s2[:rapid.IntRange(0, len(s2)-1).Draw(rt, "len")]
			case "extend":
				s2 = append(s2, make([]byte, vk.Pick(rt, "by", 1, 16, 31, 32, 33, 48, 64))...)
			case "count":
				binary.BigEndian.PutUint16(s2, uint16(vk.Pick(rt, "count", 0, len(lines)-1, len(lines)+1, len(lines)+8, 65535)))

				if binary.BigEndian.Uint16(s2) == uint16(len(lines)) {
					return
				}
			case "length":
				o := vk.Pick(rt, "which", head+144, head+148+48, head+148+116+48)
				n := vk.Pick[uint32](rt, "n", 0, 1, 2, 3, 115, 117, 1<<31-1, 1<<31, 1<<32-1)

				if binary.BigEndian.Uint32(s2[o:]) == n {
					return
				}

				binary.BigEndian.PutUint32(s2[o:], n)
			case "signature":
				s2 = sig
			case "key":
				k2 = vk.GetKey(vk.BBS, "z")
			case "nonce":
				n2 = append(n2, 1)
				if vk.Coin(rt, "flipped", 2) {
					n2 = append([]byte{}, nonce...)
					n2[rapid.IntRange(0, len(n2)-1).Draw(rt, "byte")] ^= 4
				}
			}

			if err := check(s2, strings.Join(alt, "\n"), n2, k2); err == nil {
				rt.Fatalf("altered (%s) BBS+ signature proof accepted: %q -> %q", how, shown, alt)
			}

			c.Class("%s", how)
			c.NonTrivial(how, lines, at)
			c.Sample(map[string]any{"lines": lines, "revealed": at, "alteration": how})
		})
}

// TestC06_CurveMismatch: a JWK of another curve is not a key for the verifier, even with a matching DER signature.
func TestC06_CurveMismatch(t *testing.T) {
	vk.Check(t, "DER signature valid for another curve's key given as JWK; non-trivial = all; distinct by (verifier, key curve, message)", 400, 4000,
		func(rt *rapid.T, c *vk.Case) {
			ks := []vk.Kind{vk.ES256, vk.ES256K, vk.ES384, vk.ES521}
			kind := rapid.SampledFrom(ks).Draw(rt, "verifier")
			other := rapid.SampledFrom(ks).Draw(rt, "keycurve")

			if kind == other {
				return
			}

			want := vk.GetKey(kind, "a")
			o := *vk.GetKey(other, "a")
			o.Hash = want.Hash // sign over the hash the verifier uses

			msg := []byte(vk.Word().Draw(rt, "msg"))
			r, s := o.SignRS(msg)
			sig, _ := asn1.Marshal(struct{ R, S *big.Int }{r, s})

			j, err := jwksupport.JWKFromKey(o.Pub)
			if err != nil {
				rt.Fatalf("%v", err)
			}

			if err := verifierFor(kind).Verify(sig, msg, &pubkey.PublicKey{Type: want.KMSType, JWK: j}); err == nil {
				rt.Fatalf("%s verifier accepted a %s key", kind, other)
			}

			c.Class("%s<-%s", kind, other)
			c.NonTrivial(string(kind), string(other), msg)
		})
}

var _ = ed25519.Verify

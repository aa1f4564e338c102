package props

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"math/big"

	"github.com/trustbloc/vc-go/zzverif/vk"
)

// refECDSA is the textbook verification equation.
func refECDSA(pub *ecdsa.PublicKey, digest []byte, r, s *big.Int) bool {
	c := pub.Curve
	n := c.Params().N

	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return false
	}

	e := new(big.Int).SetBytes(digest)
	if d := len(digest)*8 - n.BitLen(); d > 0 {
		e.Rsh(e, uint(d))
	}

	w := new(big.Int).ModInverse(s, n)
	u1 := new(big.Int).Mod(new(big.Int).Mul(e, w), n)
	u2 := new(big.Int).Mod(new(big.Int).Mul(r, w), n)
	x, y := addPoints(c, u1, pub, u2)

	if x == nil || (x.Sign() == 0 && y.Sign() == 0) {
		return false
	}

	return new(big.Int).Mod(x, n).Cmp(r) == 0
}

func addPoints(c elliptic.Curve, u1 *big.Int, pub *ecdsa.PublicKey, u2 *big.Int) (*big.Int, *big.Int) {
	x2, y2 := c.ScalarMult(pub.X, pub.Y, u2.Bytes()) //nolint:staticcheck
	if u1.Sign() == 0 {
		return x2, y2
	}

	x1, y1 := c.ScalarBaseMult(u1.Bytes()) //nolint:staticcheck
	if x1.Cmp(x2) == 0 && y1.Cmp(y2) == 0 {
		return c.Double(x1, y1) //nolint:staticcheck
	}

	return c.Add(x1, y1, x2, y2) //nolint:staticcheck
}

// refVerify is the reference verifier for JWS-style signatures of the key's kind.
func refVerify(k *vk.Key, msg, sig []byte) bool {
	switch pub := k.Pub.(type) {
	case ed25519.PublicKey:
		return len(sig) == ed25519.SignatureSize && ed25519.Verify(pub, msg, sig)
	case *ecdsa.PublicKey:
		if len(sig) != 2*k.Size {
			return false
		}

		h := k.Hash.New()
		h.Write(msg)

		return refECDSA(pub, h.Sum(nil), new(big.Int).SetBytes(sig[:k.Size]), new(big.Int).SetBytes(sig[k.Size:]))
	case *rsa.PublicKey:
		d := sha256.Sum256(msg)
		if k.Kind == vk.PS256 {
			return rsa.VerifyPSS(pub, crypto.SHA256, d[:], sig, nil) == nil
		}

		return rsa.VerifyPKCS1v15(pub, crypto.SHA256, d[:], sig) == nil
	}

	return false
}

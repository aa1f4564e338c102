package vk

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	_ "embed" // RSA keys
	"encoding/pem"
	"fmt"
	"math/big"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"
)

//go:embed rsa_keys.pem
var rsaPEM []byte

// Kind is a kind of signature key, named like the JWT algorithm it is used with.
type Kind string

// The kinds.
const (
	EdDSA  Kind = "EdDSA"
	ES256  Kind = "ES256"
	ES384  Kind = "ES384"
	ES521  Kind = "ES521"
	ES256K Kind = "ES256K"
	RS256  Kind = "RS256"
	PS256  Kind = "PS256"
	BBS    Kind = "BBS"
)

// JWTKinds are the kinds usable for JWTs; the cheap ones come first (rapid shrinks towards them).
var JWTKinds = []Kind{EdDSA, ES256, ES256K, ES384, ES521, RS256, PS256}

// Key is a deterministic key pair. It implements the signer interfaces of the library.
type Key struct {
	Kind     Kind
	Label    string
	KMSType  kms.KeyType
	Priv     any
	Pub      any
	JWK      *jwk.JWK
	PubBytes []byte
	Hash     crypto.Hash
	Size     int // bytes of one P1363 half
}

var keyCache sync.Map

// GetKey returns the key of the given kind and label, always the same for the same arguments.
func GetKey(kind Kind, label string) *Key {
	id := string(kind) + "/" + label
	if k, ok := keyCache.Load(id); ok {
		return k.(*Key)
	}

	k := newKey(kind, label)
	keyCache.Store(id, k)

	return k
}

func rsaKey(label string) *rsa.PrivateKey {
	n := 0
	for _, b := range []byte(label) {
		n += int(b)
	}

	n %= 3
	rest := rsaPEM

	for i := 0; ; i++ {
		var b *pem.Block

		b, rest = pem.Decode(rest)
		if i == n {
			k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
			if err != nil {
				panic(err)
			}

			return k
		}
	}
}

// Curve returns the elliptic curve of the kind.
func (k Kind) Curve() elliptic.Curve {
	switch k {
	case ES256:
		return elliptic.P256()
	case ES384:
		return elliptic.P384()
	case ES521:
		return elliptic.P521()
	case ES256K:
		return btcec.S256()
	default:
		return nil
	}
}

func newKey(kind Kind, label string) *Key {
	seed := sha512.Sum512([]byte("vk key " + string(kind) + " " + label))
	k := &Key{Kind: kind, Label: label}

	switch kind {
	case EdDSA:
		priv := ed25519.NewKeyFromSeed(seed[:32])
		k.Priv, k.Pub, k.KMSType = priv, priv.Public(), kms.ED25519Type
		k.PubBytes = priv.Public().(ed25519.PublicKey)
	case ES256, ES384, ES521, ES256K:
		c := kind.Curve()
		n1 := new(big.Int).Sub(c.Params().N, big.NewInt(1))
		big2 := sha512.Sum512(seed[:])
		d := new(big.Int).SetBytes(append(seed[:], big2[:]...))
		d.Mod(d, n1)
		d.Add(d, big.NewInt(1))

		priv := &ecdsa.PrivateKey{D: d}
		priv.Curve = c
		priv.X, priv.Y = c.ScalarBaseMult(d.Bytes()) //nolint:staticcheck

		k.Priv, k.Pub = priv, &priv.PublicKey
		k.PubBytes = elliptic.Marshal(c, priv.X, priv.Y) //nolint:staticcheck
		k.Size = (c.Params().BitSize + 7) / 8

		switch kind {
		case ES256:
			k.KMSType, k.Hash = kms.ECDSAP256TypeIEEEP1363, crypto.SHA256
		case ES384:
			k.KMSType, k.Hash = kms.ECDSAP384TypeIEEEP1363, crypto.SHA384
		case ES521:
			k.KMSType, k.Hash = kms.ECDSAP521TypeIEEEP1363, crypto.SHA512
		default:
			k.KMSType, k.Hash = kms.ECDSASecp256k1TypeIEEEP1363, crypto.SHA256
		}
	case RS256, PS256:
		priv := rsaKey(label)
		k.Priv, k.Pub = priv, &priv.PublicKey
		k.PubBytes = x509.MarshalPKCS1PublicKey(&priv.PublicKey)
		k.Hash = crypto.SHA256
		k.KMSType = kms.RSARS256Type

		if kind == PS256 {
			k.KMSType = kms.RSAPS256Type
		}
	case BBS:
		pub, priv, err := bbs12381g2pub.GenerateKeyPair(sha256.New, seed[:32])
		if err != nil {
			panic(err)
		}

		k.Priv, k.Pub, k.KMSType = priv, pub, kms.BLS12381G2Type

		b, err := pub.Marshal()
		if err != nil {
			panic(err)
		}

		k.PubBytes = b
	default:
		panic("kind " + kind)
	}

	j, err := jwksupport.JWKFromKey(k.Pub)
	if err != nil {
		panic(fmt.Sprintf("JWK of %s: %v", kind, err))
	}

	k.JWK = j

	return k
}

type detReader struct {
	seed []byte
	n    int
	buf  []byte
}

func (r *detReader) Read(p []byte) (int, error) {
	for i := range p {
		if len(r.buf) == 0 {
			h := sha256.Sum256(append(append([]byte{}, r.seed...), byte(r.n), byte(r.n>>8), byte(r.n>>16)))
			r.n++
			r.buf = h[:]
		}

		p[i] = r.buf[0]
		r.buf = r.buf[1:]
	}

	return len(p), nil
}

// Sign makes the signature JWS uses (R||S for ECDSA), deterministically.
func (k *Key) Sign(msg []byte) ([]byte, error) {
	switch p := k.Priv.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(p, msg), nil
	case *ecdsa.PrivateKey:
		r, s := k.SignRS(msg)
		out := make([]byte, 2*k.Size)
		r.FillBytes(out[:k.Size])
		s.FillBytes(out[k.Size:])

		return out, nil
	case *rsa.PrivateKey:
		h := sha256.Sum256(msg)
		if k.Kind == PS256 {
			return rsa.SignPSS(&detReader{seed: h[:]}, p, crypto.SHA256, h[:],
				&rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: crypto.SHA256})
		}

		return rsa.SignPKCS1v15(nil, p, crypto.SHA256, h[:])
	case *bbs12381g2pub.PrivateKey:
		return bbs12381g2pub.New().SignWithKey(splitLines(msg), p)
	}

	panic("no signer")
}

func splitLines(b []byte) [][]byte {
	var out [][]byte

	cur := []byte{}

	for _, c := range b {
		if c == '\n' {
			if len(cur) > 0 {
				out = append(out, cur)
			}

			cur = []byte{}

			continue
		}

		cur = append(cur, c)
	}

	if len(cur) > 0 {
		out = append(out, cur)
	}

	return out
}

// SignRS is a textbook deterministic ECDSA signature.
func (k *Key) SignRS(msg []byte) (*big.Int, *big.Int) {
	p := k.Priv.(*ecdsa.PrivateKey)
	h := k.Hash.New()
	h.Write(msg)
	digest := h.Sum(nil)
	n := p.Curve.Params().N
	e := new(big.Int).SetBytes(digest)

	if d := len(digest)*8 - n.BitLen(); d > 0 {
		e.Rsh(e, uint(d))
	}

	for ctr := byte(0); ; ctr++ {
		m := hmac.New(sha512.New, p.D.Bytes())
		m.Write(digest)
		m.Write([]byte{ctr})
		b := m.Sum(nil)
		m.Write(b)
		b = append(b, m.Sum(nil)...)
		kk := new(big.Int).SetBytes(b)
		kk.Mod(kk, n)

		if kk.Sign() == 0 {
			continue
		}

		x, _ := p.Curve.ScalarBaseMult(kk.Bytes()) //nolint:staticcheck
		r := new(big.Int).Mod(x, n)
		s := new(big.Int).Mul(r, p.D)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(kk, n))
		s.Mod(s, n)

		if r.Sign() != 0 && s.Sign() != 0 {
			return r, s
		}
	}
}

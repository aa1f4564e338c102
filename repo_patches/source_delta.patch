From f9b64f4f5501da6b360d997ac08600fe6682ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/80] fix: refuse trailing data after an ECDSA DER signature

---
 crypto-ext/verifiers/ecdsa/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 58523b7..eb3d4d1 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -109,10 +109,15 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 			R, S *big.Int
 		}
 
-		if _, err := asn1.Unmarshal(signature, &esig); err != nil {
+		rest, err := asn1.Unmarshal(signature, &esig)
+		if err != nil {
 			return err
 		}
 
+		if len(rest) != 0 {
+			return errors.New("ecdsa: trailing data after signature")
+		}
+
 		r = esig.R
 		s = esig.S
 	}
-- 
2.43.0


From 8f8c03e42d57ec80ec03709e30364628417f80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/80] fix: ECDSA verifier returns an error for a public key
 without key material

---
 crypto-ext/verifiers/ecdsa/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index eb3d4d1..91138c2 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -54,6 +54,10 @@ func (sv *Verifier) parseKey(pubKey *pubkey.PublicKey) (*ecdsa.PublicKey, error)
 	var ecdsaPubKey *ecdsa.PublicKey
 
 	if pubKey.JWK == nil {
+		if pubKey.BytesKey == nil {
+			return nil, errors.New("ecdsa: missing public key")
+		}
+
 		var err error
 
 		ecdsaPubKey, err = sv.createECDSAPublicKey(pubKey.BytesKey.Bytes)
-- 
2.43.0


From 04abbfce919117485afe171ae3c9aacd7e19d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 03/80] fix: ECDSA verifier refuses a JWK whose key lies on
 another curve

---
 crypto-ext/verifiers/ecdsa/verifier.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 91138c2..44df2ed 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -71,11 +71,26 @@ func (sv *Verifier) parseKey(pubKey *pubkey.PublicKey) (*ecdsa.PublicKey, error)
 		if !ok {
 			return nil, errors.New("ecdsa: invalid public key type")
 		}
+
+		if !sameCurve(ecdsaPubKey.Curve, sv.ec.curve) {
+			return nil, errors.New("ecdsa: public key is not on the curve of the algorithm")
+		}
 	}
 
 	return ecdsaPubKey, nil
 }
 
+// sameCurve compares domain parameters, as one curve may have several implementations.
+func sameCurve(a, b elliptic.Curve) bool {
+	if a == nil || b == nil {
+		return false
+	}
+
+	pa, pb := a.Params(), b.Params()
+
+	return pa.P.Cmp(pb.P) == 0 && pa.N.Cmp(pb.N) == 0 && pa.B.Cmp(pb.B) == 0
+}
+
 // Verify verifies the signature.
 func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) error {
 	ecdsaPubKey, err := sv.parseKey(pubKey)
-- 
2.43.0


From 7f75fbf07f9296e6c2a34fd127d44bf5a9e737ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 04/80] fix: refuse ECDSA signatures that are not exactly one
 DER sequence of two integers

---
 crypto-ext/verifiers/ecdsa/verifier.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 44df2ed..e07340b 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package ecdsa
 
 import (
+	"bytes"
 	"crypto"
 	"crypto/ecdsa"
 	"crypto/elliptic"
@@ -128,13 +129,13 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 			R, S *big.Int
 		}
 
-		rest, err := asn1.Unmarshal(signature, &esig)
-		if err != nil {
+		if _, err = asn1.Unmarshal(signature, &esig); err != nil {
 			return err
 		}
 
-		if len(rest) != 0 {
-			return errors.New("ecdsa: trailing data after signature")
+		// Unmarshal tolerates data after the two integers, inside the sequence as well as behind it.
+		if der, err := asn1.Marshal(esig); err != nil || !bytes.Equal(der, signature) {
+			return errors.New("ecdsa: signature is not valid DER")
 		}
 
 		r = esig.R
-- 
2.43.0


From 050f5ab87f94ec5c6bfc92e24b6f93a27713ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 05/80] fix: keep null and empty-array claims when
 reconstructing SD-JWT claims

---
 sdjwt/common/verification.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..37eeafd 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -156,6 +156,10 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{}, error) { // nolint:funlen,gocyclo
 	switch disclosureValue := claim.(type) {
 	case []interface{}:
+		if len(disclosureValue) == 0 {
+			return disclosureValue, nil
+		}
+
 		var newValues []interface{}
 
 		for _, value := range disclosureValue {
@@ -285,7 +289,8 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
 			}
 
-			if newValue != nil {
+			// An array left without elements is omitted, but a claim that is null stays.
+			if newValue != nil || disclosureNestedClaim == nil {
 				newValues[k] = newValue
 			}
 		}
-- 
2.43.0


From b5f85b871472ffcda6531dd13e61e77878134f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 06/80] fix: GetDisclosureClaims returns the claims in the
 order of the disclosures

---
 sdjwt/common/common.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..2ca4851 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -139,9 +139,20 @@ func GetDisclosureClaims(
 	}
 
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
+	added := make(map[*DisclosureClaim]bool, len(disclosureClaims))
 
-	for _, disclosureClaim := range recData.disclosures {
-		final = append(final, disclosureClaim)
+	// Keep the order of the given disclosures.
+	for _, disclosure := range disclosures {
+		digest, err := GetHash(hash, disclosure)
+		if err != nil {
+			return nil, err
+		}
+
+		if claim := disclosureClaims[digest]; !added[claim] {
+			added[claim] = true
+
+			final = append(final, claim)
+		}
 	}
 
 	return final, nil
-- 
2.43.0


From 1be8cf6e0d8c926a389c64a200c17533dada6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 07/80] fix: refuse SD-JWT disclosures with a reserved claim
 name

---
 sdjwt/common/verification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index 37eeafd..9b55b0e 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -380,6 +380,11 @@ func enrichWithSDElement(claim *DisclosureClaim, disclosureElementsArr []interfa
 		return fmt.Errorf("disclosure name type[%T] must be string", disclosureElementsArr[1])
 	}
 
+	if name == SDKey || name == ArrayElementDigestKey {
+		// If the claim name is _sd or ..., the SD-JWT MUST be rejected.
+		return fmt.Errorf("disclosure name '%s' is reserved", name)
+	}
+
 	claim.Name = name
 	claim.Value = disclosureElementsArr[sdDigestValuePosition]
 
-- 
2.43.0


From 6d904b5e381a68068ce2573e7351a713e5af9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 08/80] fix: SD-JWT V5 issuer does not hand out decoy digests'
 salts as disclosures

---
 sdjwt/issuer/v5.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..4a540d1 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,13 +96,13 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
-	var allDisclosures []*DisclosureEntity
+	var finalSDDigest, allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
 		curPath := key
@@ -237,7 +237,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 59c9303dd33a89cabd8b18ea0c342bf73d647a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 09/80] fix: SD-JWT V5 issuer accepts null claims

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 4a540d1..33b54f3 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -110,7 +110,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.ValueOf(value).Kind() // reflect.Invalid for null
 
 		valOption := s.extractValueOptions(curPath, opts)
 
-- 
2.43.0


From dff11e009fb5a56a71089d85eb174c49e1494b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 10/80] fix: concurrent SD-JWT issuance does not race on a
 shared random source

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..22f9401 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 
@@ -72,8 +71,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -504,7 +501,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -527,7 +524,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 1952b4179113cce81158db4fdf75da07cab36558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 11/80] fix: SD-JWT V5 issuer keeps empty arrays instead of
 turning them into null

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 33b54f3..5f676f6 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -257,7 +257,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 ) ([]interface{}, []*DisclosureEntity, error) {
 	valSl := reflect.ValueOf(value)
 
-	var digestArr []interface{}
+	digestArr := make([]interface{}, 0, valSl.Len())
 
 	var elementsDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 5e58b7b4137ba4d5fee48736f51d2906f8bfefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 12/80] fix: SD-JWT V5 issuer makes a claim disclosure for a
 claim with an empty name

---
 sdjwt/issuer/v5.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 5f676f6..67eed00 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -271,7 +271,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 			continue
 		}
 
-		disclosure, err := s.createDisclosure("", elementValue, opts)
+		disclosure, err := s.newDisclosure("", elementValue, opts, elementValue)
 		if err != nil {
 			return nil, nil,
 				fmt.Errorf("create element disclosure for path [%v]: %w", elementPath, err)
@@ -294,6 +294,16 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	key string,
 	value interface{},
 	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure(key, value, opts, key, value)
+}
+
+// newDisclosure encodes a salt followed by the elements.
+func (s *SDJWTBuilderV5) newDisclosure(
+	key string,
+	value interface{},
+	opts *newOpts,
+	elements ...interface{},
 ) (*DisclosureEntity, error) {
 	if opts.getSalt == nil {
 		return nil, errors.New("missing salt function")
@@ -308,13 +318,7 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	finalDis := &DisclosureEntity{
 		Salt: salt,
 	}
-	disclosure := []interface{}{salt}
-
-	if key != "" {
-		disclosure = append(disclosure, key)
-	}
-
-	disclosure = append(disclosure, value)
+	disclosure := append([]interface{}{salt}, elements...)
 
 	disclosureBytes, err := opts.jsonMarshal(disclosure)
 	if err != nil {
-- 
2.43.0


From 3161cda7a33636c26c4c21aae2fa1cf29b70961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 13/80] fix: securing a credential without issuance date or
 issuer does not crash

---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..6a5d8e1 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From d721a45dff78cef1de7b7b1b354d9dbb97fa6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 14/80] fix: SD-JWT verification does not take other claims for
 registered ones by letter case

---
 sdjwt/common/verification.go    | 1 +
 sdjwt/verifier/holderbidning.go | 1 +
 sdjwt/verifier/keybidning.go    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index 9b55b0e..bc4d39a 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -64,6 +64,7 @@ func VerifyJWT(signedJWT *afgjwt.JSONWebToken, leeway time.Duration) error {
 		Squash:           true,
 		WeaklyTypedInput: true,
 		DecodeHook:       utils.JSONNumberToJwtNumericDate(),
+		MatchName:        func(mapKey, fieldName string) bool { return mapKey == fieldName },
 	})
 	if err != nil {
 		return fmt.Errorf("mapstruct verifyJWT. error: %w", err)
diff --git a/sdjwt/verifier/holderbidning.go b/sdjwt/verifier/holderbidning.go
index f59ccff..8f8e9cc 100644
--- a/sdjwt/verifier/holderbidning.go
+++ b/sdjwt/verifier/holderbidning.go
@@ -31,6 +31,7 @@ func verifyHolderBindingJWT(holderJWT *afgjwt.JSONWebToken, pOpts *parseOpts) er
 		Squash:           true,
 		WeaklyTypedInput: true,
 		DecodeHook:       utils.JSONNumberToJwtNumericDate(),
+		MatchName:        func(mapKey, fieldName string) bool { return mapKey == fieldName },
 	})
 	if err != nil {
 		return fmt.Errorf("mapstruct verifyHodlder. error: %w", err)
diff --git a/sdjwt/verifier/keybidning.go b/sdjwt/verifier/keybidning.go
index eb068fc..8a107b4 100644
--- a/sdjwt/verifier/keybidning.go
+++ b/sdjwt/verifier/keybidning.go
@@ -31,6 +31,7 @@ func verifyKeyBindingJWT(holderJWT *afgjwt.JSONWebToken, pOpts *parseOpts) error
 		Squash:           true,
 		WeaklyTypedInput: true,
 		DecodeHook:       utils.JSONNumberToJwtNumericDate(),
+		MatchName:        func(mapKey, fieldName string) bool { return mapKey == fieldName },
 	})
 	if err != nil {
 		return fmt.Errorf("mapstruct verifyHodlder. error: %w", err)
-- 
2.43.0


From 43af6555dd63cb697eeadae36a0ad7e60e58959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 15/80] fix: MarshalWithDisclosure discloses every claim of a
 given name

---
 verifiable/credential_sdjwt.go | 38 ++++++++++++----------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..61f57bf 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -224,43 +224,31 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
+	use := map[string]bool{}
+	missing := map[string]bool{}
 
 	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
+		use[name] = true
 	}
 
 	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
-	}
-
-	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
-
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
-		}
+		use[name] = true
+		missing[name] = true
 	}
 
 	var out []*common.DisclosureClaim
 
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
+	// several disclosures may carry the same name, at different places of the credential.
+	for _, disclosure := range disclosures {
+		if use[disclosure.Name] {
+			out = append(out, disclosure)
 		}
-	}
 
-	for _, claim := range reqMap {
-		if claim == nil {
-			return nil, errors.New("disclosure list missing required claim")
-		}
+		delete(missing, disclosure.Name)
+	}
 
-		out = append(out, claim)
+	if len(missing) > 0 {
+		return nil, errors.New("disclosure list missing required claim")
 	}
 
 	return out, nil
-- 
2.43.0


From 7b74936049593e0ff3d159e71454dace44fdc7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 16/80] fix: an SD-JWT credential presented without disclosures
 is recognised as SD-JWT

---
 verifiable/credential_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..7ae739a 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -68,7 +68,13 @@ func (p *CredentialJSONParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.Join(errUnsupportedCredentialFormat, err)
 	}
 
-	contents, err := parseCredentialContents(vcJSON, jwtParseRes.isSDJWT)
+	isSDJWT := jwtParseRes.isSDJWT
+	if jwtParseRes.isJWS && vcJSON[jsonFldSDJWTHashAlg] != nil {
+		// an SD-JWT presented without any disclosure has the form of a plain JWT.
+		isSDJWT = true
+	}
+
+	contents, err := parseCredentialContents(vcJSON, isSDJWT)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2ccd1fa87856febda7cfe83421324249116dc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 17/80] fix: MakeSDJWT does not write into the caller's list of
 claims

---
 verifiable/credential_sdjwt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 61f57bf..4637012 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -407,7 +407,8 @@ func makeSDJWT( //nolint:funlen,gocyclo
 		)
 	}
 
-	opts.nonSDClaims = append(opts.nonSDClaims, "id")
+	// the list given by the caller is not to be written to.
+	opts.nonSDClaims = append(append([]string{}, opts.nonSDClaims...), "id")
 	issuerOptions = append(issuerOptions,
 		issuer.WithNonSelectivelyDisclosableClaims(opts.nonSDClaims),
 	)
-- 
2.43.0


From c8d362669977699e532b5cf3ebd62088a6b849a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 18/80] fix: displaying given disclosures does not show
 undisclosed claims nested in them

---
 verifiable/credential_sdjwt.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 4637012..db49510 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -485,7 +485,10 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, *vc.credentialContents.SDJWTHashAlg, options)
+	if err != nil {
+		return nil, fmt.Errorf("selecting disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -547,7 +550,10 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, *vc.credentialContents.SDJWTHashAlg, options)
+	if err != nil {
+		return nil, fmt.Errorf("selecting disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -561,9 +567,13 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
-func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
+func filterDisclosureList(
+	disclosures []*common.DisclosureClaim,
+	hashAlg crypto.Hash,
+	options *displayCredOpts,
+) ([]*common.DisclosureClaim, error) {
 	if options.displayAll {
-		return disclosures
+		return disclosures, nil
 	}
 
 	displayGivenMap := map[string]struct{}{}
@@ -572,15 +582,17 @@ func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displa
 		displayGivenMap[given] = struct{}{}
 	}
 
-	var out []*common.DisclosureClaim
+	var given []string
 
 	for _, disclosure := range disclosures {
 		if _, ok := displayGivenMap[disclosure.Name]; ok {
-			out = append(out, disclosure)
+			given = append(given, disclosure.Disclosure)
 		}
 	}
 
-	return out
+	// The value of a decoded disclosure includes the disclosures nested in it, so those that are
+	// displayed are decoded again, without the ones that are not.
+	return common.GetDisclosureClaims(given, hashAlg)
 }
 
 func clearEmpty(claims map[string]interface{}) {
-- 
2.43.0


From 548819c654d035effb7b6f7ff951382f53aa8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 19/80] fix: the proof of a CWT presentation is checked

---
 verifiable/presentation_parser.go | 38 +++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..7efed45 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -148,6 +149,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 
 	convertedMap := convertToStringMap(vpMap)
 
+	if err := checkCWTPresentationProof(message, convertedMap, vpOpts); err != nil {
+		return nil, err
+	}
+
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
 		// do nothing
@@ -165,6 +170,35 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func checkCWTPresentationProof(message *cose.Sign1Message, claims map[string]interface{},
+	vpOpts *presentationOpts) error {
+	if vpOpts.disabledProofCheck {
+		return nil
+	}
+
+	if vpOpts.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return fmt.Errorf("CWT proof check: %w", err)
+	}
+
+	var expectedProofIssuer *string
+
+	if iss, ok := claims["iss"].(string); ok && iss != "" {
+		expectedProofIssuer = &iss
+	}
+
+	err = cwt.CheckProof(message, vpOpts.proofChecker, expectedProofIssuer, proofValue, message.Signature)
+	if err != nil {
+		return fmt.Errorf("CWT proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 89443e392a3c5df826ad18e086974348f9f99406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 20/80] fix: a credential with a Data Integrity proof is
 accepted only when its issuer made the proof

---
 verifiable/embedded_proof.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..9b372c1 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -70,7 +71,12 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 				return err
 			}
 
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			if err != nil {
+				return err
+			}
+
+			return checkDataIntegrityProofIssuer(proofs, expectedProofIssuer)
 		}
 	}
 
@@ -87,6 +93,24 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkDataIntegrityProofIssuer checks that all proofs were made with keys of the expected issuer.
+func checkDataIntegrityProofIssuer(proofs []map[string]interface{}, expectedProofIssuer *string) error {
+	if expectedProofIssuer == nil {
+		return nil
+	}
+
+	for _, p := range proofs {
+		verificationMethod, _ := p["verificationMethod"].(string) //nolint:errcheck
+
+		if strings.Split(verificationMethod, "#")[0] != *expectedProofIssuer {
+			return fmt.Errorf("data integrity proof verification method %q does not belong to issuer %q",
+				verificationMethod, *expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From 00a5336cfc08c938bd10c3baeea9547ed4fb717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 21/80] fix: an empty list of linked data proofs is not
 accepted as proof

---
 verifiable/lddocument/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From f0bc8c0fffffaf2cd90a8410316f65fbc1a24bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 22/80] fix: an empty list of Data Integrity proofs is not
 accepted as proof

---
 dataintegrity/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..69d2a89 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -100,7 +100,12 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
 		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
 			return err
 		}
-- 
2.43.0


From 55f36c407165e34ff210b1d48d93f8471845f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 23/80] fix: each Data Integrity proof is verified with its own
 options

The verifier completed the caller's options with the values of the first proof (suite, created, expires, verification
method) and used them for the following proofs and calls, and computed the signed proof options from the expected
domain and challenge instead of those the proof has: a member added to the proof was accepted, a genuine proof with a
domain was refused when none was expected.
---
 dataintegrity/verifier.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 69d2a89..53c10eb 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -116,8 +116,15 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 
 func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 	proofRaw, unsecuredDoc []byte,
-	opts *models.ProofOptions,
+	verifyOpts *models.ProofOptions,
 ) error {
+	// The options below are completed with the values of this proof, so that they are neither shared with the other
+	// proofs of the document nor with the caller.
+	opts := &models.ProofOptions{}
+	if verifyOpts != nil {
+		*opts = *verifyOpts
+	}
+
 	proof := &models.Proof{}
 
 	err := json.Unmarshal(proofRaw, proof)
@@ -146,7 +153,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrMalformedProof
 	}
 
-	if opts.Created.IsZero() && proof.Created != "" {
+	opts.Created = time.Time{}
+
+	if proof.Created != "" {
 		var parsedCreatedTime time.Time
 
 		parsedCreatedTime, err = time.Parse(models.DateTimeFormat, proof.Created)
@@ -157,6 +166,8 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		opts.Created = parsedCreatedTime
 	}
 
+	opts.Expires = time.Time{}
+
 	if proof.Expires != "" {
 		var parsedExpiresTime time.Time
 
@@ -181,8 +192,6 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
-	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
-
 	if opts.Domain != "" && opts.Domain != proof.Domain {
 		return ErrInvalidDomain
 	}
@@ -191,5 +200,10 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	// What is verified are the values the proof has, all of which are covered by its signature.
+	opts.VerificationMethodID = proof.VerificationMethod
+	opts.Domain = proof.Domain
+	opts.Challenge = proof.Challenge
+
+	return verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 }
-- 
2.43.0


From 3f72c14eb421e89b7c002f1d888eb68070283790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 24/80] fix: an eddsa-2022 proof names the suite it was made
 with

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..a600722 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -189,6 +189,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
+	suiteType := SuiteType
+	if opts.SuiteType != "" {
+		suiteType = opts.SuiteType
+	}
+
 	var expires string
 	if !opts.Expires.IsZero() {
 		expires = opts.Expires.Format(models.DateTimeFormat)
@@ -196,7 +201,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        suiteType,
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-- 
2.43.0


From c41d836fd55cfb299f5b42083d02746922a1a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 25/80] fix: a Data Integrity proof added to a document with
 proofs can be verified

The proof was computed over the document with its existing proof and then replaced that one.
---
 dataintegrity/signer.go         | 28 +++++++++++++++++++++++++++-
 verifiable/linked_data_proof.go |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..0d6257c 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 	"github.com/trustbloc/did-go/doc/did"
 
@@ -98,7 +99,19 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// A proof is made for the document without the proofs it already has, as it is verified.
+	existing := gjson.GetBytes(doc, proofPath)
+
+	unsecuredDoc := doc
+
+	if existing.Exists() {
+		unsecuredDoc, err = sjson.DeleteBytes(doc, proofPath)
+		if err != nil {
+			return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
+		}
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -125,6 +138,19 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrProofGeneration
 	}
 
+	if proofs := existing.Array(); len(proofs) > 0 {
+		set := make([]json.RawMessage, 0, len(proofs)+1)
+
+		for _, p := range proofs {
+			set = append(set, json.RawMessage(p.Raw))
+		}
+
+		proofRaw, err = json.Marshal(append(set, proofRaw))
+		if err != nil {
+			return nil, ErrProofGeneration
+		}
+	}
+
 	out, err := sjson.SetRawBytes(doc, proofPath, proofRaw)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index 910f22a..a8ce974 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -74,7 +74,7 @@ func mapJSONLDProcessorOpts(jsonldOpts *jsonldCredentialOpts) []ldprocessor.Opts
 }
 
 type rawProof struct {
-	Proof JSONObject `json:"proof,omitempty"`
+	Proof interface{} `json:"proof,omitempty"`
 }
 
 // addLinkedDataProof adds a new proof to the JSON-LD document (VC or VP). It returns a slice
-- 
2.43.0


From ed3195efc60b3738289c7311913598be22454f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 26/80] fix: a linked data proof can be added to a created
 credential with several statuses, subjects or schemas

JSON-LD processing panicked on the typed slices of a credential made by CreateCredential.
---
 verifiable/linked_data_proof.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index a8ce974..1c1ea9d 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 package verifiable
 
 import (
+	"encoding/json"
 	"fmt"
 	"time"
 
@@ -83,11 +84,27 @@ func addLinkedDataProof(context *LinkedDataProofContext, jsonld JSONObject,
 	opts ...ldprocessor.Opts) ([]Proof, error) {
 	documentSigner := lddocument.NewDocumentSigner(context.ProofCreator)
 
-	err := documentSigner.Sign(mapContext(context), jsonld, opts...)
+	// JSON-LD processing expects values of the types JSON decoding produces, while a created credential can have others,
+	// like slices of objects.
+	docBytes, err := json.Marshal(jsonld)
+	if err != nil {
+		return nil, fmt.Errorf("add linked data proof: marshal document: %w", err)
+	}
+
+	var doc JSONObject
+
+	err = json.Unmarshal(docBytes, &doc)
+	if err != nil {
+		return nil, fmt.Errorf("add linked data proof: unmarshal document: %w", err)
+	}
+
+	err = documentSigner.Sign(mapContext(context), doc, opts...)
 	if err != nil {
 		return nil, fmt.Errorf("add linked data proof: %w", err)
 	}
 
+	jsonld[jsonFldLDProof] = doc[jsonFldLDProof]
+
 	proofs, err := parseLDProof(jsonld[jsonFldLDProof])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 54a038f9d4f562c25c9d2697ecacfe8e8222a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 27/80] fix: a JWT without a vc or vp claim or without
 registered claims does not panic

---
 verifiable/credential_jwt.go   |  8 ++++++++
 verifiable/presentation_jwt.go | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 6a5d8e1..9ecef62 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -186,6 +186,14 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
 	claims := jcc.Claims
 
+	if vcMap == nil {
+		return errors.New("\"vc\" claim is missing")
+	}
+
+	if claims == nil {
+		return nil
+	}
+
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
 		if err != nil {
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..87359e5 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -19,9 +20,17 @@ type JWTPresClaims struct {
 	Presentation rawPresentation `json:"vp,omitempty"`
 }
 
-func (jpc *JWTPresClaims) refineFromJWTClaims() {
+func (jpc *JWTPresClaims) refineFromJWTClaims() error {
 	raw := jpc.Presentation
 
+	if raw == nil {
+		return errors.New("\"vp\" claim is missing")
+	}
+
+	if jpc.Claims == nil {
+		return nil
+	}
+
 	if jpc.Issuer != "" {
 		raw[vpFldHolder] = jpc.Issuer
 	}
@@ -29,6 +38,8 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	if jpc.ID != "" {
 		raw[vpFldID] = jpc.ID
 	}
+
+	return nil
 }
 
 // newJWTPresClaims creates JWT Claims of VP with an option to minimize certain fields put into "vp" claim.
@@ -80,7 +91,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 	}
 
 	// Apply VC-related claims from JWT.
-	presClaims.refineFromJWTClaims()
+	err = presClaims.refineFromJWTClaims()
+	if err != nil {
+		return nil, nil, fmt.Errorf("refine Verifiable Presentation from JWT claims: %w", err)
+	}
 
 	vpRaw := presClaims.Presentation
 
-- 
2.43.0


From 378b511fadeac7a797cfed7859c8b7a9b8824d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 28/80] fix: serializing a presentation keeps its inline
 contexts

---
 verifiable/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..2952a2f 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -497,7 +497,7 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
 	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From 92684d42c5a8df2f39f6b446eaf99149c822c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 29/80] fix: changing the clone of a presentation leaves the
 original as it was

---
 verifiable/presentation.go | 75 ++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 2952a2f..b80aa70 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -10,6 +10,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/fxamacker/cbor/v2"
@@ -541,18 +542,70 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
-	return &Presentation{
-		Context:       vp.Context,
-		CustomContext: vp.CustomContext,
-		ID:            vp.ID,
-		Type:          vp.Type,
-		credentials:   vp.credentials,
-		Holder:        vp.Holder,
-		Proofs:        vp.Proofs,
-		CustomFields:  vp.CustomFields,
-		JWT:           vp.JWT,
-		CWT:           vp.CWT,
+	clone := *vp
+
+	clone.Context = slices.Clone(vp.Context)
+	clone.CustomContext = cloneSlice(vp.CustomContext)
+	clone.Type = slices.Clone(vp.Type)
+	clone.credentials = slices.Clone(vp.credentials)
+	clone.CustomFields = cloneMap(vp.CustomFields)
+
+	if vp.Proofs != nil {
+		clone.Proofs = make([]Proof, len(vp.Proofs))
+
+		for i, proof := range vp.Proofs {
+			clone.Proofs[i] = cloneMap(proof)
+		}
+	}
+
+	if vp.CWT != nil {
+		clone.CWT = &VpCWT{
+			Raw:     slices.Clone(vp.CWT.Raw),
+			Message: vp.CWT.Message,
+			VPMap:   cloneMap(vp.CWT.VPMap),
+		}
 	}
+
+	return &clone
+}
+
+func cloneValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return cloneMap(v)
+	case []interface{}:
+		return cloneSlice(v)
+	default:
+		return value
+	}
+}
+
+func cloneMap[M ~map[string]interface{}](m M) M {
+	if m == nil {
+		return nil
+	}
+
+	clone := make(M, len(m))
+
+	for k, v := range m {
+		clone[k] = cloneValue(v)
+	}
+
+	return clone
+}
+
+func cloneSlice(s []interface{}) []interface{} {
+	if s == nil {
+		return nil
+	}
+
+	clone := make([]interface{}, len(s))
+
+	for i, v := range s {
+		clone[i] = cloneValue(v)
+	}
+
+	return clone
 }
 
 const (
-- 
2.43.0


From bbf7ac1aaeca74790ba32d422f5f1e9c48381d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 30/80] fix: a minimized CWT presentation keeps its id and
 holder

---
 verifiable/presentation_parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 7efed45..26e5197 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -18,6 +18,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
@@ -155,7 +156,18 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-		// do nothing
+		return nil, errors.New("\"vp\" claim is missing")
+	}
+
+	// Apply VP-related claims from CWT.
+	vpContent = jsonutil.ShallowCopyObj(vpContent)
+
+	if iss, ok := convertedMap["iss"].(string); ok && iss != "" {
+		vpContent[vpFldHolder] = iss
+	}
+
+	if jti, ok := convertedMap["jti"].(string); ok && jti != "" {
+		vpContent[vpFldID] = jti
 	}
 
 	return &parsePresentationResponse{
-- 
2.43.0


From d09d6e63c8fb0067847cc56c2f42fabfd3c747f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 31/80] fix: a holder given as an object keeps its members

---
 verifiable/presentation.go        | 24 ++++++++++++++++++++++--
 verifiable/presentation_jwt.go    | 22 +++++++++++++++++++++-
 verifiable/presentation_parser.go |  2 +-
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index b80aa70..9c20640 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -349,6 +349,9 @@ type Presentation struct {
 	JWT           string
 	CWT           *VpCWT
 
+	// holderObject is the holder as it was given if that was an object, with members beside its id.
+	holderObject map[string]interface{}
+
 	CustomFields CustomFields
 }
 
@@ -509,8 +512,8 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 		rp[vpFldType] = serializeTypes(vp.Type)
 	}
 
-	if len(vp.Holder) > 0 {
-		rp[vpFldHolder] = vp.Holder
+	if holder := vp.rawHolder(); holder != nil {
+		rp[vpFldHolder] = holder
 	}
 
 	if len(vp.Proofs) > 0 {
@@ -540,6 +543,19 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	return rp, nil
 }
 
+// rawHolder returns the holder as the object it was parsed from, unless the holder was changed since, or as a string.
+func (vp *Presentation) rawHolder() interface{} {
+	if id, _ := vp.holderObject[vpFldID].(string); vp.holderObject != nil && id == vp.Holder { //nolint:errcheck
+		return cloneMap(vp.holderObject)
+	}
+
+	if vp.Holder == "" {
+		return nil
+	}
+
+	return vp.Holder
+}
+
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	clone := *vp
@@ -548,6 +564,7 @@ func (vp *Presentation) Clone() *Presentation {
 	clone.CustomContext = cloneSlice(vp.CustomContext)
 	clone.Type = slices.Clone(vp.Type)
 	clone.credentials = slices.Clone(vp.credentials)
+	clone.holderObject = cloneMap(vp.holderObject)
 	clone.CustomFields = cloneMap(vp.CustomFields)
 
 	if vp.Proofs != nil {
@@ -910,6 +927,8 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		return nil, fmt.Errorf("fill presentation holder from raw: %w", err)
 	}
 
+	holderObject, _ := vpRaw[vpFldHolder].(map[string]interface{}) //nolint:errcheck
+
 	if err = executeChecks(vpOpts, proofs, creds, holder); err != nil {
 		return nil, err
 	}
@@ -922,6 +941,7 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		credentials:   creds,
 		Holder:        holder,
 		Proofs:        proofs,
+		holderObject:  holderObject,
 		CustomFields: jsonutil.CopyExcept(vpRaw,
 			vpFldContext,
 			vpFldID,
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index 87359e5..793e3c6 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 // JWTPresClaims is JWT Claims extension by Verifiable Presentation (with custom "vp" claim).
@@ -32,7 +33,7 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() error {
 	}
 
 	if jpc.Issuer != "" {
-		raw[vpFldHolder] = jpc.Issuer
+		refineVPHolder(raw, jpc.Issuer)
 	}
 
 	if jpc.ID != "" {
@@ -43,6 +44,19 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() error {
 }
 
 // newJWTPresClaims creates JWT Claims of VP with an option to minimize certain fields put into "vp" claim.
+// refineVPHolder sets the id of the holder, which is either a string (id) or an object with "id".
+func refineVPHolder(raw rawPresentation, id string) {
+	if holder, ok := raw[vpFldHolder].(map[string]interface{}); ok {
+		holder = jsonutil.ShallowCopyObj(holder)
+		holder[vpFldID] = id
+		raw[vpFldHolder] = holder
+
+		return
+	}
+
+	raw[vpFldHolder] = id
+}
+
 func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JWTPresClaims, error) {
 	// currently jwt encoding supports only single subject.([]Subject) (by the spec)
 	jwtClaims := &jwt.Claims{
@@ -63,6 +77,12 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 		vpCopy.ID = ""
 		vpCopy.Holder = ""
 		rawVP, err = vpCopy.raw()
+
+		// an object keeps its other members
+		if holder, ok := vp.rawHolder().(map[string]interface{}); ok && err == nil && len(holder) > 1 {
+			delete(holder, vpFldID)
+			rawVP[vpFldHolder] = holder
+		}
 	} else {
 		rawVP, err = vp.raw()
 	}
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 26e5197..ae0357e 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -163,7 +163,7 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	vpContent = jsonutil.ShallowCopyObj(vpContent)
 
 	if iss, ok := convertedMap["iss"].(string); ok && iss != "" {
-		vpContent[vpFldHolder] = iss
+		refineVPHolder(vpContent, iss)
 	}
 
 	if jti, ok := convertedMap["jti"].(string); ok && jti != "" {
-- 
2.43.0


From c905e1d7398a301a4aeb47bac2e377503045b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 32/80] fix: a document the JSON-LD processor panics on is
 refused with an error

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go |  7 +++++--
 dataintegrity/suite/eddsa2022/eddsa2022.go |  7 +++++--
 internal/ldrecover/ldrecover.go            | 18 ++++++++++++++++++
 proof/checker/checker.go                   |  5 ++++-
 proof/creator/creator.go                   |  5 ++++-
 verifiable/bbs_selective_disclosure.go     |  5 ++++-
 verifiable/credential.go                   |  5 ++++-
 verifiable/presentation.go                 |  5 ++++-
 8 files changed, 48 insertions(+), 9 deletions(-)
 create mode 100644 internal/ldrecover/ldrecover.go

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..be4c88d 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -27,6 +27,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 )
 
 const (
@@ -375,8 +376,10 @@ func (s *Suite) RequiresCreated() bool {
 }
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader, mda ld.MessageDigestAlgorithm,
-) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(
+) (out []byte, err error) {
+	defer ldrecover.Error(&err)
+
+	out, err = processor.Default().GetCanonicalDocument(
 		data,
 		processor.WithDocumentLoader(loader),
 		processor.WithMessageDigestAlgorithm(mda),
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index a600722..c8547b4 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -24,6 +24,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 )
 
 const (
@@ -291,8 +292,10 @@ func (s *Suite) RequiresCreated() bool {
 	return false
 }
 
-func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
+func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) (out []byte, err error) {
+	defer ldrecover.Error(&err)
+
+	out, err = processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
 	}
diff --git a/internal/ldrecover/ldrecover.go b/internal/ldrecover/ldrecover.go
new file mode 100644
index 0000000..e059dbe
--- /dev/null
+++ b/internal/ldrecover/ldrecover.go
@@ -0,0 +1,18 @@
+/*
+Copyright Gen Digital Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package ldrecover guards calls of the JSON-LD processor.
+package ldrecover
+
+import "fmt"
+
+// Error sets err if the JSON-LD processor panicked, which it does on some malformed documents.
+// It is to be deferred by the function that calls the processor.
+func Error(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("malformed JSON-LD document: %v", r)
+	}
+}
diff --git a/proof/checker/checker.go b/proof/checker/checker.go
index 0f1295a..31f4589 100644
--- a/proof/checker/checker.go
+++ b/proof/checker/checker.go
@@ -21,6 +21,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 	"github.com/trustbloc/vc-go/vermethod"
 )
@@ -180,7 +181,9 @@ func (c *ProofChecker) CheckLDProof(proof *proof.Proof, expectedProofIssuer stri
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCheckerBase) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (canonicalDoc []byte, err error) {
+	defer ldrecover.Error(&err)
+
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 02ef155..90e5200 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -16,6 +16,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/cwt"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 	"github.com/trustbloc/vc-go/jwt"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 )
@@ -94,7 +95,9 @@ func (c *ProofCreator) SignLinkedDocument(proof *proof.Proof, keyType kms.KeyTyp
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCreator) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (canonicalDoc []byte, err error) {
+	defer ldrecover.Error(&err)
+
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..561354e 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -15,6 +15,7 @@ import (
 	"github.com/trustbloc/did-go/doc/ld/processor"
 	"github.com/trustbloc/did-go/doc/ld/proof"
 
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
 	"github.com/trustbloc/vc-go/vermethod"
 )
@@ -45,7 +46,9 @@ type BBSProofCreator struct {
 // BBSSelectiveDisclosure creates selective disclosure from the input doc which must have a BBS+ proof
 // (with BbsBlsSignature2020 type).
 func BBSSelectiveDisclosure(doc map[string]interface{}, revealDoc map[string]interface{},
-	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (map[string]interface{}, error) {
+	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (revealed map[string]interface{}, err error) {
+	defer ldrecover.Error(&err)
+
 	docWithoutProof, rawProofs, err := prepareDocAndProof(doc, opts...)
 	if err != nil {
 		return nil, fmt.Errorf("preparing doc failed: %w", err)
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..00e8972 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -33,6 +33,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
@@ -1669,7 +1670,9 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 	return validateCredentialUsingJSONSchema(vcJSON, vcc, vcOpts)
 }
 
-func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
+func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) (err error) {
+	defer ldrecover.Error(&err)
+
 	baseContext, err := GetBaseContext(vcc.Context)
 	if err != nil {
 		return err
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 9c20640..5736f6f 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -19,6 +19,7 @@ import (
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/ldrecover"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
@@ -1034,7 +1035,9 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 	return validateVPJSONLD(data, opts)
 }
 
-func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) error {
+func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
+	defer ldrecover.Error(&err)
+
 	return docjsonld.ValidateJSONLDMap(vpBytes,
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
-- 
2.43.0


From 73c65c366687da165b7c3cdce702b065801fc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 33/80] fix: a status list credential without subject is an
 error, not a panic

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..eb28d3e 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From 7253b839a58d160f9b645286853c6b376f515f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 34/80] fix: a status list published for another purpose does
 not answer for an entry

---
 status/status.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/status/status.go b/status/status.go
index eb28d3e..9ed5201 100644
--- a/status/status.go
+++ b/status/status.go
@@ -96,6 +96,15 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 		return errors.New("status list vc has no subject")
 	}
 
+	purpose, err := validator.GetStatusPurpose(status)
+	if err != nil {
+		return err
+	}
+
+	if !listHasPurpose(credSubject[0].CustomFields["statusPurpose"], purpose) {
+		return fmt.Errorf("status list vc is not for status purpose %s", purpose)
+	}
+
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
 		return errors.New("encodedList must be a string")
@@ -112,11 +121,6 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	if bitSet {
-		purpose, err := validator.GetStatusPurpose(status)
-		if err != nil {
-			return err
-		}
-
 		switch purpose {
 		case StatusPurposeRevocation:
 			return ErrRevoked
@@ -129,3 +133,22 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 
 	return nil
 }
+
+// listHasPurpose tells whether a status list published for the purposes in listPurpose serves the given purpose.
+// A list that states no purpose serves any.
+func listHasPurpose(listPurpose interface{}, purpose string) bool {
+	switch p := listPurpose.(type) {
+	case nil:
+		return true
+	case string:
+		return p == purpose
+	case []interface{}:
+		for _, v := range p {
+			if v == purpose {
+				return true
+			}
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 54957cb82116b1f4856b313360cab593e6993ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 35/80] fix: a BitstringStatusList status of several bits is
 read at its own position

---
 status/status.go                              | 37 +++++++++++++++-
 .../bitstringstatus/bitstringstatus.go        | 44 +++++++++++++------
 2 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/status/status.go b/status/status.go
index 9ed5201..aeb23ef 100644
--- a/status/status.go
+++ b/status/status.go
@@ -10,6 +10,7 @@ package status
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/trustbloc/vc-go/verifiable"
 
@@ -115,7 +116,16 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 		return fmt.Errorf("failed to decode bits: %w", err)
 	}
 
-	bitSet, err := bitstring.BitAt(bitString, statusListIndex)
+	statusSize := 1
+
+	if v, ok := validator.(statusSizer); ok {
+		statusSize, err = v.GetStatusSize(status)
+		if err != nil {
+			return err
+		}
+	}
+
+	bitSet, err := statusSet(bitString, statusListIndex, statusSize)
 	if err != nil {
 		return err
 	}
@@ -152,3 +162,28 @@ func listHasPurpose(listPurpose interface{}, purpose string) bool {
 
 	return false
 }
+
+// statusSizer is a validator for status entries that may take more than one bit of the list.
+type statusSizer interface {
+	GetStatusSize(vcStatus *verifiable.TypedID) (int, error)
+}
+
+// statusSet tells whether any bit of the idx'th status, of size bits, is set.
+func statusSet(bitString []byte, idx, size int) (bool, error) {
+	if size > 1 && idx > math.MaxInt/size-1 {
+		return false, errors.New("position is invalid")
+	}
+
+	set := false
+
+	for i := 0; i < size; i++ {
+		bit, err := bitstring.BitAt(bitString, idx*size+i)
+		if err != nil {
+			return false, err
+		}
+
+		set = set || bit
+	}
+
+	return set, nil
+}
diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 473d8ab..28a758f 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -11,6 +11,7 @@ package bitstringstatus
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 
 	"github.com/trustbloc/vc-go/verifiable"
@@ -79,20 +80,9 @@ func isMissingField(vcStatus *verifiable.TypedID, field string) error {
 }
 
 func checkStatusSize(vcStatus *verifiable.TypedID) error {
-	statusSizeRaw := vcStatus.CustomFields[StatusSize]
-	if statusSizeRaw == nil {
-		return nil
-	}
-
-	statusSizeF, ok := statusSizeRaw.(float64)
-	if !ok {
-		return errors.New("statusSize must be an integer")
-	}
-
-	statusSize := int(statusSizeF)
-
-	if statusSize <= 0 {
-		return fmt.Errorf("statusSize must be greater than 0, but got %d", statusSize)
+	statusSize, err := statusSizeOf(vcStatus)
+	if err != nil {
+		return err
 	}
 
 	if statusSize == 1 {
@@ -113,6 +103,32 @@ func checkStatusSize(vcStatus *verifiable.TypedID) error {
 	return nil
 }
 
+// statusSizeOf returns the size of the status entry in bits, 1 unless the entry states another.
+func statusSizeOf(vcStatus *verifiable.TypedID) (int, error) {
+	statusSizeRaw := vcStatus.CustomFields[StatusSize]
+	if statusSizeRaw == nil {
+		return 1, nil
+	}
+
+	statusSizeF, ok := statusSizeRaw.(float64)
+	if !ok || statusSizeF != math.Trunc(statusSizeF) {
+		return 0, errors.New("statusSize must be an integer")
+	}
+
+	statusSize := int(statusSizeF)
+
+	if statusSize <= 0 {
+		return 0, fmt.Errorf("statusSize must be greater than 0, but got %d", statusSize)
+	}
+
+	return statusSize, nil
+}
+
+// GetStatusSize returns the number of bits the status of the VC takes in the list.
+func (v *Validator) GetStatusSize(vcStatus *verifiable.TypedID) (int, error) {
+	return statusSizeOf(vcStatus)
+}
+
 // GetStatusVCURI returns the ID (URL) of status VC.
 func (v *Validator) GetStatusVCURI(vcStatus *verifiable.TypedID) (string, error) {
 	statusListVC, ok := vcStatus.CustomFields[StatusListCredential].(string)
-- 
2.43.0


From 5415962c0c56707d260700ba0032965f0865f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 36/80] fix: constraints without fields do not reject every
 credential

---
 presexch/definition.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..c29471a 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -962,7 +962,7 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		applicable := true
 
 		var err error
 
@@ -1000,8 +1000,6 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			if err != nil {
 				return nil, debugCred, fmt.Errorf("filter field.%d: %w", i, err)
 			}
-
-			applicable = true
 		}
 
 		if !applicable {
-- 
2.43.0


From d1eaba2b56e9cd3217b8edc611ce417ca43f4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 37/80] fix: a presentation definition filter without type does
 not panic

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index c29471a..15cad8c 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1457,7 +1457,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 1bbcc4037ecd578b11ad1b76d3243c72e3a50a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 38/80] fix: try every accepted format until a credential
 satisfies the descriptor

---
 presexch/definition.go | 74 ++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 15cad8c..9b82ff0 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -848,28 +848,36 @@ func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 		format = descriptor.Format
 	}
 
-	vpFormat := ""
-	filtered := creds
+	groups := []formatGroup{{creds: creds}}
 
 	if format.notNil() {
-		vpFormat, filtered = filterFormat(format, filtered)
+		groups = filterFormat(format, creds)
 	}
 
-	var err error
-	// Validate schema only for v1
-	if descriptor.Schema != nil {
-		filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+	// a credential in any of the accepted formats will do: go on until there are some that satisfy the rest
+	for _, group := range groups {
+		filtered := group.creds
+
+		var err error
+		// Validate schema only for v1
+		if descriptor.Schema != nil {
+			filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+			if err != nil {
+				return "", nil, err
+			}
+		}
+
+		filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
-	if err != nil {
-		return "", nil, err
+		if len(filteredByConstraints) > 0 {
+			return group.format, filteredByConstraints, nil
+		}
 	}
 
-	return vpFormat, filteredByConstraints, nil
+	return "", nil, nil
 }
 
 func getSubjectIDs(subject interface{}) []string { // nolint: gocyclo
@@ -1752,8 +1760,13 @@ func (a byID) Len() int           { return len(a) }
 func (a byID) Less(i, j int) bool { return a[i].ID < a[j].ID }
 func (a byID) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 
+type formatGroup struct {
+	format string
+	creds  []*verifiable.Credential
+}
+
 //nolint:funlen,gocyclo
-func filterFormat(format *Format, credentials []*verifiable.Credential) (string, []*verifiable.Credential) {
+func filterFormat(format *Format, credentials []*verifiable.Credential) []formatGroup {
 	var ldpCreds, ldpvcCreds, ldpvpCreds, jwtCreds, jwtvcCreds, jwtvpCreds []*verifiable.Credential
 
 	for _, credential := range credentials {
@@ -1791,31 +1804,22 @@ func filterFormat(format *Format, credentials []*verifiable.Credential) (string,
 		}
 	}
 
-	if len(ldpCreds) > 0 {
-		return FormatLDP, ldpCreds
-	}
-
-	if len(ldpvcCreds) > 0 {
-		return FormatLDPVC, ldpvcCreds
-	}
-
-	if len(ldpvpCreds) > 0 {
-		return FormatLDPVP, ldpvpCreds
-	}
-
-	if len(jwtCreds) > 0 {
-		return FormatJWT, jwtCreds
-	}
-
-	if len(jwtvcCreds) > 0 {
-		return FormatJWTVC, jwtvcCreds
-	}
+	var groups []formatGroup
 
-	if len(jwtvpCreds) > 0 {
-		return FormatJWTVP, jwtvpCreds
+	for _, group := range []formatGroup{
+		{FormatLDP, ldpCreds},
+		{FormatLDPVC, ldpvcCreds},
+		{FormatLDPVP, ldpvpCreds},
+		{FormatJWT, jwtCreds},
+		{FormatJWTVC, jwtvcCreds},
+		{FormatJWTVP, jwtvpCreds},
+	} {
+		if len(group.creds) > 0 {
+			groups = append(groups, group)
+		}
 	}
 
-	return "", nil
+	return groups
 }
 
 func algMatch(credAlg string, jwtType *JwtType) bool {
-- 
2.43.0


From b67fa0dfe857b0cd7d27967e0fa4ff5b42dd880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 39/80] fix: submit every credential that has no id

---
 presexch/definition.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 9b82ff0..21d7f46 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1039,7 +1039,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		credentialSrc := filtered.credentialSrc
 
 		if constraints == nil {
-			result = append(result, &credWrapper{uniqueID: credentialContents.ID, vc: credential})
+			result = append(result, &credWrapper{uniqueID: uniqueID(credential), vc: credential})
 			continue
 		}
 
@@ -1056,7 +1056,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			continue
 		}
 
-		uniqueCredID := credentialContents.ID
+		uniqueCredID := uniqueID(credential)
 
 		// Non-SDJWT case.
 		//nolint:nestif
@@ -1265,6 +1265,15 @@ func copyOnlySubjectIDs(subject []verifiable.Subject) interface{} {
 	return withOnlyIDs
 }
 
+// uniqueID tells credentials apart: those without an ID are not one and the same credential.
+func uniqueID(credential *verifiable.Credential) string {
+	if id := credential.Contents().ID; id != "" {
+		return id
+	}
+
+	return fmt.Sprintf("%p", credential)
+}
+
 func tmpID(id string) string {
 	return id + tmpEnding + uuid.New().String()
 }
-- 
2.43.0


From edb7bc1ccf78b08948349069de65a808958caa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 40/80] fix: show text filters the dates of JWT credentials as
 text

---
 presexch/definition.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 21d7f46..df4c180 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1613,20 +1613,22 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return nil
 	}
 
+	raw, err := json.Marshal(patch)
+	if err != nil {
+		return err
+	}
+
+	rawNumber := raw
+
 	// convert date string to Unix timestamp for JWT credential
 	if isJWTCredential && field.Path != nil && isDateField(field.Path) {
 		if val, ok := patch.(string); ok {
 			if t, err := time.Parse(time.RFC3339, val); err == nil {
-				patch = t.Unix()
+				rawNumber = []byte(strconv.FormatInt(t.Unix(), 10))
 			}
 		}
 	}
 
-	raw, err := json.Marshal(patch)
-	if err != nil {
-		return err
-	}
-
 	var schemasToExecute []gojsonschema.JSONLoader
 
 	for _, all := range field.Filter.AllOf {
@@ -1638,7 +1640,14 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	}
 
 	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
+		value := raw
+
+		// a filter for text sees the date as it is written
+		if numeric, e := isNumericSchema(sh); e != nil || numeric {
+			value = rawNumber
+		}
+
+		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(value))
 		if err != nil || !result.Valid() {
 			return errors.Join(errPathNotApplicable)
 		}
@@ -1647,6 +1656,25 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	return nil
 }
 
+func isNumericSchema(schema gojsonschema.JSONLoader) (bool, error) {
+	src, err := json.Marshal(schema.JsonSource())
+	if err != nil {
+		return false, err
+	}
+
+	var item FilterItem
+
+	if err = json.Unmarshal(src, &item); err != nil {
+		return false, err
+	}
+
+	if item.Type != nil {
+		return *item.Type == "number" || *item.Type == "integer", nil
+	}
+
+	return item.Minimum != nil || item.Maximum != nil || item.ExclusiveMinimum != nil || item.ExclusiveMaximum != nil, nil
+}
+
 func isDateField(paths []string) bool {
 	// date fields that are refined from JWT claims
 	dateKeywords := []string{".expirationDate", ".issuanceDate", ".validFrom", ".validUntil"}
-- 
2.43.0


From f000d07deb3c55ae347ec3ca7fe8769a26b26bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 41/80] fix: report schema errors and accept descriptors
 without schema when matching

---
 presexch/api.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..a2c9dff 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -218,11 +218,16 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			inputDescriptor := pd.inputDescriptor(mapping.ID)
 
-			var fltErr error
+			passed := []*verifiable.Credential{vc}
 
-			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
-			if fltErr != nil {
-				return nil, err
+			// Validate schema only for v1
+			if inputDescriptor.Schema != nil {
+				var fltErr error
+
+				passed, fltErr = filterSchema(inputDescriptor.Schema, passed, contextLoader)
+				if fltErr != nil && !opts.DisableSchemaValidation {
+					return nil, fltErr
+				}
 			}
 
 			if len(passed) == 0 && !opts.DisableSchemaValidation {
-- 
2.43.0


From 01e6c497fa4969f38ce9b43a0e1887a7d405b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 42/80] fix: evaluate submission requirements when matching

---
 presexch/api.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index a2c9dff..c78eb86 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -19,6 +19,7 @@ import (
 	"github.com/piprate/json-gold/ld"
 
 	"github.com/trustbloc/vc-go/jwt"
+	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	"github.com/trustbloc/vc-go/verifiable"
 )
 
@@ -306,20 +307,27 @@ func selectVC(typelessVerifiable interface{},
 
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
-	// TODO support submission requirement rules: https://github.com/hyperledger/aries-framework-go/issues/2109
-	descriptorIDs := descriptorIDs(pd.InputDescriptors)
+	found := requirementlogic.DescriptorIDSet{}
 
-	for i := range descriptorIDs {
-		found := false
+	for _, m := range matched {
+		found.Add(m.DescriptorID)
+	}
 
-		for _, m := range matched {
-			if m.DescriptorID == i {
-				found = true
-				break
-			}
+	if len(pd.SubmissionRequirements) > 0 {
+		req, err := makeRequirement(pd.SubmissionRequirements, pd.InputDescriptors)
+		if err != nil {
+			return err
 		}
 
-		if !found {
+		if !req.toLogic().IsSatisfiedBy(found) {
+			return errors.New("the provided credentials do not meet the submission requirements")
+		}
+
+		return nil
+	}
+
+	for i := range descriptorIDs(pd.InputDescriptors) {
+		if !found.Has(i) {
 			return fmt.Errorf("no credential provided for input descriptor %s", i)
 		}
 	}
-- 
2.43.0


From e5cf36b792dca5ffe8764476828e7554ee195124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 43/80] fix: refuse submissions made for another presentation
 definition

---
 presexch/api.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index c78eb86..1a577f5 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -36,6 +36,7 @@ const (
 
 	submissionProperty    = "presentation_submission"
 	descriptorMapProperty = "descriptor_map"
+	definitionIDProperty  = "definition_id"
 )
 
 // PresentationSubmission is the container for the descriptor_map:
@@ -153,10 +154,18 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 	var mappingsByVPIndex map[int][]*InputDescriptorMapping
 
 	if opts.MergedSubmission != nil {
+		if err := pd.checkDefinitionID(opts.MergedSubmission.DefinitionID); err != nil {
+			return nil, err
+		}
+
 		mappingsByVPIndex = descriptorsByPresentationIndex(opts.MergedSubmission.DescriptorMap)
 	} else if len(opts.MergedSubmissionMap) != 0 {
 		useMergedSubmission = true
 
+		if err := pd.checkDefinitionID(opts.MergedSubmissionMap[definitionIDProperty]); err != nil {
+			return nil, err
+		}
+
 		descs, err := getDescriptorMapping(opts.MergedSubmissionMap)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
@@ -185,6 +194,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		if useMergedSubmission {
 			descriptorMap = mappingsByVPIndex[vpIdx]
 		} else {
+			if err = pd.checkDefinitionID(submissionDefinitionID(vp)); err != nil {
+				return nil, err
+			}
+
 			descriptorMap, err = parseDescriptorMap(vp)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
@@ -379,6 +392,28 @@ func parseDescriptorMap(vp *verifiable.Presentation) ([]*InputDescriptorMapping,
 	}
 }
 
+func submissionDefinitionID(vp *verifiable.Presentation) interface{} {
+	switch submission := vp.CustomFields[submissionProperty].(type) {
+	case map[string]interface{}:
+		return submission[definitionIDProperty]
+	case *PresentationSubmission:
+		return submission.DefinitionID
+	case PresentationSubmission:
+		return submission.DefinitionID
+	default:
+		return nil
+	}
+}
+
+// checkDefinitionID refuses submissions made for another definition.
+func (pd *PresentationDefinition) checkDefinitionID(definitionID interface{}) error {
+	if definitionID == nil || definitionID == "" || definitionID == pd.ID {
+		return nil
+	}
+
+	return fmt.Errorf("the submission is for presentation definition [%v], not [%s]", definitionID, pd.ID)
+}
+
 func getDescriptorMapping(submission map[string]interface{}) ([]*InputDescriptorMapping, error) {
 	descriptorMap, ok := submission[descriptorMapProperty].([]interface{})
 	if !ok {
-- 
2.43.0


From 28396897182e077660da0b4a25f276039746dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 44/80] fix: refuse null entries in a descriptor map

---
 presexch/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 1a577f5..5738e50 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -432,6 +432,12 @@ func getDescriptorMapping(submission map[string]interface{}) ([]*InputDescriptor
 		return nil, fmt.Errorf("failed to unmarshal descriptor map: %w", err)
 	}
 
+	for i, mapping := range typedDescriptorMap {
+		if mapping == nil {
+			return nil, fmt.Errorf("%s.%d is not an object", descriptorMapProperty, i)
+		}
+	}
+
 	return typedDescriptorMap, nil
 }
 
-- 
2.43.0


From cca6bdfe81cb654d8b87a5c97f5e1357cd83c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 45/80] fix: check the accepted formats when matching

---
 presexch/api.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 5738e50..d99d632 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -232,6 +232,16 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			inputDescriptor := pd.inputDescriptor(mapping.ID)
 
+			format := pd.Format
+			if inputDescriptor.Format.notNil() {
+				format = inputDescriptor.Format
+			}
+
+			if format.notNil() && len(filterFormat(format, []*verifiable.Credential{vc})) == 0 {
+				return nil, fmt.Errorf("input descriptor id [%s] does not accept the format of the credential selected by path [%s]",
+					inputDescriptor.ID, mapping.Path)
+			}
+
 			passed := []*verifiable.Credential{vc}
 
 			// Validate schema only for v1
-- 
2.43.0


From 5dd993774f9d1b9f8aa477701e3f061366c5e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 46/80] fix: keep numbers when selecting credentials from a JWT
 presentation

---
 presexch/api.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index d99d632..3abe21d 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -554,12 +554,19 @@ func stringsContain(s []string, val string) bool {
 func getTypelessVP(vp *verifiable.Presentation) (interface{}, error) {
 	switch {
 	case vp.IsJWT():
-		token, _, parseErr := jwt.Parse(vp.JWT)
+		_, payload, parseErr := jwt.Parse(vp.JWT)
 		if parseErr != nil {
 			return nil, fmt.Errorf("failed to parse vp.JWT: %w", parseErr)
 		}
 
-		return token.Payload, nil
+		// the numbers of the token's own payload map would end up as text
+		typelessVP := interface{}(nil)
+
+		if err := json.Unmarshal(payload, &typelessVP); err != nil {
+			return nil, fmt.Errorf("failed to unmarshal vp.JWT: %w", err)
+		}
+
+		return typelessVP, nil
 	case vp.IsCWT():
 		return vp.CWT.VPMap, nil
 	default:
-- 
2.43.0


From 3007d15d4b650eae7b96c1d7b7d9896682aaf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 47/80] fix: select only the members that an object has

---
 util/json/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/json/json.go b/util/json/json.go
index 5b830d8..30edadc 100644
--- a/util/json/json.go
+++ b/util/json/json.go
@@ -132,7 +132,9 @@ func Select(json map[string]interface{}, flds ...string) map[string]interface{}
 	newJSON := map[string]interface{}{}
 
 	for _, fld := range flds {
-		newJSON[fld] = json[fld]
+		if value, ok := json[fld]; ok {
+			newJSON[fld] = value
+		}
 	}
 
 	return newJSON
-- 
2.43.0


From 8e00ba9559edc8addd03ed6cf37fc778e5252667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 48/80] fix: disclose by path what a limited credential has to
 show

---
 presexch/definition.go | 422 +++++++++++++++++++++++++++++------------
 1 file changed, 304 insertions(+), 118 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index df4c180..5edc5da 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -7,7 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -17,7 +17,6 @@ import (
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
 	"github.com/tidwall/gjson"
@@ -31,6 +30,7 @@ import (
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -49,6 +49,9 @@ const (
 
 	credentialSchema = "credentialSchema"
 
+	// disclosureArrayElementParts are the parts of the disclosure of an array element: one of an object has one more.
+	disclosureArrayElementParts = 2
+
 	// FormatJWT presentation exchange format.
 	FormatJWT = "jwt"
 	// FormatJWTVC presentation exchange format.
@@ -1083,7 +1086,14 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 					"issuer",
 					"issuanceDate")
 
-				templateObj["credentialSubject"] = copyOnlySubjectIDs(credentialContents.Subject)
+				subject := copyOnlySubjectIDs(credentialContents.Subject)
+
+				// A list of one subject stays a list: its paths have an index.
+				if l, ok := credential.ToRawJSON()["credentialSubject"].([]interface{}); ok && len(l) == 1 {
+					subject = []interface{}{subject}
+				}
+
+				templateObj["credentialSubject"] = subject
 
 				template, err = json.Marshal(templateObj)
 				if err != nil {
@@ -1122,10 +1132,8 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
-			err = credential.SetSDJWTDisclosures(limitedDisclosures)
-			if err != nil {
-				return nil, err
-			}
+			credential = withSDJWTDisclosures(credential, limitedDisclosures)
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
@@ -1134,7 +1142,18 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 	return result, nil
 }
 
-// nolint: gocyclo,funlen,gocognit
+// withSDJWTDisclosures gives a copy of the credential that has the given disclosures only.
+func withSDJWTDisclosures(credential *verifiable.Credential, disclosures []*common.DisclosureClaim) *verifiable.Credential {
+	limited, envelope := *credential, *credential.JWTEnvelope
+
+	envelope.SDJWTDisclosures = disclosures
+	limited.JWTEnvelope = &envelope
+
+	return &limited
+}
+
+// getLimitedDisclosures gives the disclosures that make the requested fields visible: those of the values the fields
+// select, of everything inside of them and of everything they are inside of.
 func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
 	credentialContents := credential.Contents()
 
@@ -1143,12 +1162,12 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 		return nil, err
 	}
 
-	var limitedDisclosures []*common.DisclosureClaim
+	var requested []string
 
 	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
-		if err != nil {
-			return nil, err
+		jPaths, e := compactArrayPaths([]*Field{f}, displaySrc, nil, credential.IsJWT())
+		if e != nil {
+			return nil, e
 		}
 
 		for _, path := range jPaths {
@@ -1156,50 +1175,145 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 				continue
 			}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+			requested = append(requested, path.oldPath)
+		}
+	}
+
+	disclosures := credential.SDJWTDisclosures()
+	byDigest := make(map[string]*common.DisclosureClaim, len(disclosures))
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
-			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
+	for _, dc := range disclosures {
+		digest, e := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
+		if e != nil {
+			return nil, e
+		}
+
+		byDigest[digest] = dc
+	}
+
+	var credentialMap map[string]interface{}
+
+	if err = json.Unmarshal(credentialSrc, &credentialMap); err != nil {
+		return nil, err
+	}
+
+	places := make(map[*common.DisclosureClaim]string)
+
+	if err = locateDisclosures(credentialMap, "", byDigest, places); err != nil {
+		return nil, err
+	}
+
+	var limitedDisclosures []*common.DisclosureClaim
+
+	for _, dc := range disclosures {
+		place, ok := places[dc]
+		if ok && lo.SomeBy(requested, func(path string) bool { return isInside(place, path) || isInside(path, place) }) {
+			limitedDisclosures = append(limitedDisclosures, dc)
+		}
+	}
+
+	return limitedDisclosures, nil
+}
+
+// isInside tells if a path leads to another path or to something inside of it.
+func isInside(path, outer string) bool {
+	return path == outer || strings.HasPrefix(path, outer+".")
+}
+
+// locateDisclosures finds the path, in the credential with everything disclosed, of the value of every disclosure.
+func locateDisclosures(value interface{}, path string, byDigest map[string]*common.DisclosureClaim,
+	places map[*common.DisclosureClaim]string) error {
+	join := func(key string) string {
+		return strings.TrimPrefix(path+"."+escapePathKey(key), ".")
+	}
+
+	locate := func(digest interface{}, elements int) (bool, error) {
+		text, _ := digest.(string) //nolint:errcheck
+
+		dc, ok := byDigest[text]
+		if !ok {
+			return false, nil
+		}
+
+		parts, err := disclosureParts(dc.Disclosure)
+		if err != nil {
+			return false, err
+		}
+
+		if len(parts) != elements {
+			return false, nil
+		}
+
+		place := path
+		if elements > disclosureArrayElementParts {
+			place = join(fmt.Sprint(parts[1]))
+		}
+
+		places[dc] = place
+
+		return true, locateDisclosures(parts[elements-1], place, byDigest, places)
+	}
+
+	switch v := value.(type) {
+	case map[string]interface{}:
+		digests, _ := v[common.SDKey].([]interface{}) //nolint:errcheck
+
+		for _, digest := range digests {
+			if _, err := locate(digest, disclosureArrayElementParts+1); err != nil {
+				return err
+			}
+		}
+
+		for key, member := range v {
+			if key == common.SDKey {
 				continue
 			}
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
+			if err := locateDisclosures(member, join(key), byDigest, places); err != nil {
+				return err
 			}
+		}
+	case []interface{}:
+		arrayPath, index := path, 0
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+		for _, element := range v {
+			path = arrayPath + "." + strconv.Itoa(index)
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
-			}
+			m, ok := element.(map[string]interface{})
+			if !ok || m[common.ArrayElementDigestKey] == nil {
+				index++ // shown as it is
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
-				}
+				continue
 			}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+			found, err := locate(m[common.ArrayElementDigestKey], disclosureArrayElementParts)
+			if err != nil {
+				return err
+			}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
-					}
-				}
+			if found {
+				index++
 			}
 		}
 	}
 
-	return limitedDisclosures, nil
+	return nil
+}
+
+// disclosureParts decodes a disclosure: a salt, the name of an object member, and the value.
+func disclosureParts(disclosure string) ([]interface{}, error) {
+	decoded, err := base64.RawURLEncoding.DecodeString(disclosure)
+	if err != nil {
+		return nil, fmt.Errorf("decode disclosure: %w", err)
+	}
+
+	var parts []interface{}
+
+	if err = json.Unmarshal(decoded, &parts); err != nil {
+		return nil, fmt.Errorf("unmarshal disclosure: %w", err)
+	}
+
+	return parts, nil
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1288,34 +1402,31 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		explicitPaths       = make(map[string]bool)
 	)
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
-		if err != nil {
-			return nil, err
-		}
+	jPaths, err := compactArrayPaths(constraints.Fields, src, limitedCred, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+	for _, path := range jPaths {
+		if strings.Contains(path.newPath, credentialSchema) {
+			continue
+		}
 
-			var val interface{} = true
+		val := path.value
 
-			if f.Predicate.isRequired() {
-				modifiedByPredicate = true
-			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
-			}
+		if path.field.Predicate.isRequired() {
+			modifiedByPredicate = true
+			val = true
+		}
 
-			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
-				explicitPaths[explicitPath] = true
-			}
+		if doBBS {
+			explicitPath, _ := splitLast(path.newPath, ".")
+			explicitPaths[explicitPath] = true
+		}
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
-			}
+		limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -1348,36 +1459,124 @@ func splitLast(text, split string) (string, string) {
 	return text[:lastIndex], text[lastIndex+len(split):]
 }
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
-		return nil, err
-	}
+// compactArrayPaths finds the values the fields select, and adjusts the array indices in their paths, as if the
+// corresponding JSON object has all unmentioned array elements removed. Elements of arrays that are in the target
+// already keep their index. Input paths are in JSONPath syntax, while output paths are in dot-separated syntax,
+// eg, `foo.1.bar.3`.
+func compactArrayPaths(fields []*Field, src, target []byte, isJWTCredential bool) ([]*pathTransform, error) {
+	var doc map[string]interface{}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
-	if err != nil {
+	if err := json.Unmarshal(src, &doc); err != nil {
 		return nil, err
 	}
 
 	var jPaths []*pathTransform
 
-	set := map[string]int{}
+	for _, field := range fields {
+		for _, path := range field.Path {
+			parsed, err := parseFieldPath(isJWTCredential, path, doc)
+			if err != nil {
+				return nil, err
+			}
+
+			for _, node := range parsed.SelectLocated(doc) {
+				var oldPath string
 
-	for {
-		result, ok := eval.Next()
-		if !ok {
-			break
+				for _, step := range node.Path {
+					oldPath = joinPath(oldPath, step)
+				}
+
+				jPaths = append(jPaths, &pathTransform{field: field, steps: node.Path, oldPath: oldPath, value: node.Node})
+			}
 		}
+	}
+
+	// Predicates come last, what they are about may be inside of another field.
+	sort.SliceStable(jPaths, func(i, j int) bool {
+		return !jPaths[i].field.Predicate.isRequired() && jPaths[j].field.Predicate.isRequired()
+	})
+
+	indices := mentionedIndices(jPaths, target)
+
+	for _, path := range jPaths {
+		var oldPath string
+
+		for _, step := range path.steps {
+			compacted := step
+
+			if index, ok := step.(spec.Index); ok && indices[oldPath] != nil {
+				compacted = spec.Index(lo.CountBy(indices[oldPath], func(i int) bool { return i < int(index) }))
+			}
 
-		jPaths = append(jPaths, getPath(result.Keys, set))
+			oldPath = joinPath(oldPath, step)
+			path.newPath = joinPath(path.newPath, compacted)
+		}
 	}
 
 	return jPaths, nil
 }
 
+// mentionedIndices collects the indices used with each array that is neither in the target nor selected as a whole.
+func mentionedIndices(jPaths []*pathTransform, target []byte) map[string][]int {
+	indices := map[string][]int{}
+
+	for _, path := range jPaths {
+		var oldPath string
+
+		for _, step := range path.steps {
+			array := oldPath
+			oldPath = joinPath(oldPath, step)
+
+			index, ok := step.(spec.Index)
+			if !ok || gjson.GetBytes(target, array).IsArray() || lo.Contains(indices[array], int(index)) {
+				continue
+			}
+
+			whole := lo.SomeBy(jPaths, func(other *pathTransform) bool {
+				return !other.field.Predicate.isRequired() && isInside(array, other.oldPath)
+			})
+
+			if !whole {
+				indices[array] = append(indices[array], int(index))
+			}
+		}
+	}
+
+	return indices
+}
+
+func joinPath(path string, step spec.NormalSelector) string {
+	key := ""
+
+	switch v := step.(type) {
+	case spec.Name:
+		key = escapePathKey(string(v))
+	case spec.Index:
+		key = strconv.Itoa(int(v))
+	}
+
+	if path == "" {
+		return key
+	}
+
+	return path + "." + key
+}
+
+// escapePathKey writes a member name so that it has no other meaning in a dot-separated path.
+func escapePathKey(key string) string {
+	var builder strings.Builder
+
+	for _, r := range key {
+		if strings.ContainsRune(`\.*?#|@!:{}[]()`, r) {
+			builder.WriteByte('\\')
+		}
+
+		builder.WriteRune(r)
+	}
+
+	return builder.String()
+}
+
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
 	var err error
 
@@ -1524,14 +1723,10 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+// parseFieldPath parses the path of a field that is evaluated on the given credential.
+//
+//nolint:gocyclo
+func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1554,7 +1749,7 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, errors.New("expected $ or @ at start of path")
 	}
 
 	var pathParsed *pathv2.Path
@@ -1579,7 +1774,23 @@ func checkPathValue(
 	}
 
 	if pathErr != nil {
-		return pathErr
+		return nil, pathErr
+	}
+
+	return pathParsed, nil
+}
+
+//nolint:gocyclo,funlen
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, err := parseFieldPath(isJWTCredential, path, credential)
+	if err != nil {
+		return err
 	}
 
 	selected := pathParsed.Select(credential)
@@ -1690,36 +1901,11 @@ func isDateField(paths []string) bool {
 }
 
 type pathTransform struct {
+	field   *Field
+	steps   spec.NormalizedPath
 	newPath string
 	oldPath string
-}
-
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
-
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
-
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
-
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
-		}
-	}
-
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
+	value   interface{}
 }
 
 //nolint:funlen
-- 
2.43.0


From 22203af0e4e5382c4327a888835bbcb34e948fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 49/80] fix: compare origins without a host as texts

---
 didconfig/verifier/didconfig.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..b1f8d54 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -371,6 +371,11 @@ func validateOrigin(origin1, origin2 string) error {
 		return err
 	}
 
+	// Without a host there is nothing but the texts to compare.
+	if (url1.Host == "" || url2.Host == "") && origin1 != origin2 {
+		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
+	}
+
 	// Browsers define same origin based on the following pieces of data:
 	// The protocol (e.g., HTTP or HTTPS)
 	// The port, if available
-- 
2.43.0


From 3dccf4e385ab105148faf2eeaa6cd932e33dd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 50/80] fix: lock the store provider to get a configuration

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..395d042 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From c918e699a1712df44e98abfbbd08b7a3cff639d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 51/80] fix: copy what the in-memory store keeps and check tags
 in batches

---
 legacy/mem/mem.go | 49 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 395d042..ada1b84 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -156,6 +156,19 @@ type dbEntry struct {
 	tags  []spi.Tag
 }
 
+// copy gives an entry that shares neither value nor tags with the original one.
+func (e dbEntry) copy() dbEntry {
+	if e.value != nil {
+		e.value = append([]byte{}, e.value...)
+	}
+
+	if e.tags != nil {
+		e.tags = append([]spi.Tag{}, e.tags...)
+	}
+
+	return e
+}
+
 type memStore struct {
 	name   string
 	db     map[string]dbEntry
@@ -174,6 +187,18 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		return errors.New("value cannot be nil")
 	}
 
+	if err := checkTags(tags); err != nil {
+		return err
+	}
+
+	m.Lock()
+	defer m.Unlock()
+	m.db[key] = dbEntry{value: value, tags: tags}.copy()
+
+	return nil
+}
+
+func checkTags(tags []spi.Tag) error {
 	for _, tag := range tags {
 		if strings.Contains(tag.Name, ":") {
 			return fmt.Errorf(invalidTagName, tag.Name)
@@ -184,13 +209,6 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		}
 	}
 
-	m.Lock()
-	defer m.Unlock()
-	m.db[key] = dbEntry{
-		value: value,
-		tags:  tags,
-	}
-
 	return nil
 }
 
@@ -210,7 +228,7 @@ func (m *memStore) Get(key string) ([]byte, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.value, nil
+	return entry.copy().value, nil
 }
 
 // Get fetches all tags associated with the given key.
@@ -229,7 +247,7 @@ func (m *memStore) GetTags(key string) ([]spi.Tag, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.tags, nil
+	return entry.copy().tags, nil
 }
 
 // GetBulk fetches the values associated with the given keys.
@@ -252,7 +270,7 @@ func (m *memStore) GetBulk(keys ...string) ([][]byte, error) {
 	defer m.RUnlock()
 
 	for i, key := range keys {
-		values[i] = m.db[key].value
+		values[i] = m.db[key].copy().value
 	}
 
 	return values, nil
@@ -336,6 +354,10 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		if operation.Key == "" {
 			return errEmptyKey
 		}
+
+		if err := checkTags(operation.Tags); err != nil {
+			return err
+		}
 	}
 
 	for _, operation := range operations {
@@ -344,10 +366,7 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 			continue
 		}
 
-		m.db[operation.Key] = dbEntry{
-			value: operation.Value,
-			tags:  operation.Tags,
-		}
+		m.db[operation.Key] = dbEntry{value: operation.Value, tags: operation.Tags}.copy()
 	}
 
 	return nil
@@ -382,7 +401,7 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
 				keys = append(keys, key)
-				dbEntries = append(dbEntries, dbEntry)
+				dbEntries = append(dbEntries, dbEntry.copy())
 
 				break
 			}
-- 
2.43.0


From ce250889af0938f87a5bc6cb39dc48c55aa5db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 52/80] fix: close only the store that is closed

---
 legacy/mem/mem.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index ada1b84..3c399fd 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -36,7 +36,7 @@ type Provider struct {
 	lock sync.RWMutex
 }
 
-type closer func(storeName string)
+type closer func(store *memStore)
 
 // NewProvider instantiates a new in-memory storage Provider.
 func NewProvider() *Provider {
@@ -141,13 +141,13 @@ func (p *Provider) Ping() error {
 	return nil
 }
 
-func (p *Provider) removeStore(name string) {
+func (p *Provider) removeStore(store *memStore) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
-	_, ok := p.dbs[name]
-	if ok {
-		delete(p.dbs, name)
+	// A store of the same name may have been opened since this one was closed.
+	if p.dbs[store.name] == store {
+		delete(p.dbs, store.name)
 	}
 }
 
@@ -374,7 +374,7 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 
 // Close closes this store object. All data within the store is deleted.
 func (m *memStore) Close() error {
-	m.close(m.name)
+	m.close(m)
 
 	return nil
 }
-- 
2.43.0


From cc99490df5fc56f4aaf98d5478d476c87237be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 53/80] fix: evaluate every term of a query on the in-memory
 store

---
 legacy/mem/mem.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 3c399fd..cb66dcc 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -298,7 +298,10 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 		return nil, errInvalidQueryExpressionFormat
 	}
 
-	queryResults := make(map[string]*queryResult)
+	var queryResults []*queryResult
+
+	m.RLock()
+	defer m.RUnlock()
 
 	for _, exp := range strings.Split(expression, "&&") {
 		expressionSplit := strings.Split(exp, ":")
@@ -308,14 +311,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
@@ -394,9 +397,6 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 
 	var dbEntries []dbEntry
 
-	m.RLock()
-	defer m.RUnlock()
-
 	for key, dbEntry := range m.db {
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
@@ -496,7 +496,7 @@ func checkForUnsupportedQueryOptions(options []spi.QueryOption) error {
 }
 
 // commonDBEntries returns the DB entries that appear in all the query results.
-func commonDBEntries(results map[string]*queryResult) ([]string, []dbEntry) {
+func commonDBEntries(results []*queryResult) ([]string, []dbEntry) {
 	numTags := len(results)
 	keyMap := make(map[string]int)
 	valueMap := make(map[string]dbEntry)
-- 
2.43.0


From 871176a58711e7ed35731feb1a16f3e28681137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 54/80] fix: read the zero time as a numeric date

---
 util/maphelpers/mapstruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/maphelpers/mapstruct.go b/util/maphelpers/mapstruct.go
index 0d0f17c..8909d3a 100644
--- a/util/maphelpers/mapstruct.go
+++ b/util/maphelpers/mapstruct.go
@@ -11,7 +11,6 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 	"github.com/mitchellh/mapstructure"
@@ -33,7 +32,8 @@ func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 			return nil, err
 		}
 
-		date := jwt.NewNumericDate(time.Unix(int64(parsedFloat), 0))
+		// jwt.NewNumericDate has no date for the zero time.
+		date := jwt.NumericDate(int64(parsedFloat))
 
 		if t.String() == "jwt.NumericDate" {
 			return date, nil
-- 
2.43.0


From 3b2cbe9ad2d65fac0d54cf8fc9f2a2f32fb56d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 55/80] fix: check the length of a related resource's digest

---
 verifiable/related_resource.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..0e60acf 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -157,7 +157,7 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	var hash string
 
 	if res.DigestSRI != "" {
-		sp := strings.Split(res.DigestSRI, "-")
+		sp := strings.SplitN(res.DigestSRI, "-", 2) // base64url has "-", too
 
 		if len(sp) != 2 {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
@@ -197,7 +197,8 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
+	hasHeader := enc == multibase.Base64url && len(decodedDigest) == sha256.Size+2 &&
+		decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
 	if hasHeader { // skip header
 		decodedDigest = decodedDigest[2:]
 	}
-- 
2.43.0


From 917f40078c10601e5ce69d9988c006e70b897939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 56/80] fix: check both digests of a related resource

---
 verifiable/related_resource.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 0e60acf..e4c9f5b 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -152,9 +152,9 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	var hashAlgo string
-
-	var hash string
+	if res.DigestSRI == "" && res.DigestMultiBase == "" {
+		return fmt.Errorf("no digest: %s", res.Id)
+	}
 
 	if res.DigestSRI != "" {
 		sp := strings.SplitN(res.DigestSRI, "-", 2) // base64url has "-", too
@@ -163,14 +163,16 @@ func (r *RelatedResourceValidator) validateSingleResource(
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
 
-		hashAlgo = sp[0]
-		hash = sp[1]
-	} else if res.DigestMultiBase != "" {
-		hashAlgo = "sha256"
-		hash = res.DigestMultiBase
+		if err := r.validateHash(sp[1], sp[0], res, cachedResource); err != nil {
+			return err
+		}
+	}
+
+	if res.DigestMultiBase != "" {
+		return r.validateHash(res.DigestMultiBase, "sha256", res, cachedResource)
 	}
 
-	return r.validateHash(hash, hashAlgo, res, cachedResource)
+	return nil
 }
 
 func (r *RelatedResourceValidator) validateHash(
-- 
2.43.0


From 222930ea3dedc38320cb42f047d376f39fff16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 57/80] fix: validate a credential against every schema it must
 satisfy

---
 verifiable/credential.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 00e8972..007399b 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2172,27 +2172,31 @@ func SerializeSubject(subject []Subject) interface{} {
 // conforms to the serialization of the Verifiable Credential data model
 // (https://w3c.github.io/vc-data-model/#example-1-a-simple-example-of-a-verifiable-credential)
 func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContents, opts *credentialOpts) error {
-	schemaLoader, err := getSchemaLoader(vcc, opts)
+	schemaLoaders, err := getSchemaLoaders(vcc, opts)
 	if err != nil {
 		return fmt.Errorf("get schema loader: %w", err)
 	}
 
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := gojsonschema.Validate(schemaLoader, loader)
-	if err != nil {
-		return fmt.Errorf("validation of verifiable credential: %w", err)
-	}
+	for _, schemaLoader := range schemaLoaders {
+		result, err := gojsonschema.Validate(schemaLoader, loader)
+		if err != nil {
+			return fmt.Errorf("validation of verifiable credential: %w", err)
+		}
 
-	if !result.Valid() {
-		errMsg := describeSchemaValidationError(result, "verifiable credential")
-		return errors.New(errMsg)
+		if !result.Valid() {
+			errMsg := describeSchemaValidationError(result, "verifiable credential")
+			return errors.New(errMsg)
+		}
 	}
 
 	return nil
 }
 
-func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
+// getSchemaLoaders returns the schemas the credential must satisfy: the schema of its data model
+// and every supported schema it references, unless the options replace or disable them.
+func getSchemaLoaders(vcc *CredentialContents, opts *credentialOpts) ([]gojsonschema.JSONLoader, error) {
 	var schemaLoader gojsonschema.JSONLoader
 
 	if IsBaseContext(vcc.Context, V2ContextURI) {
@@ -2202,17 +2206,19 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 	}
 
 	if opts.disabledCustomSchema {
-		return schemaLoader, nil
+		return []gojsonschema.JSONLoader{schemaLoader}, nil
 	}
 
 	if opts.defaultSchema != "" {
-		return gojsonschema.NewStringLoader(opts.defaultSchema), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchema)}, nil
 	}
 
 	if opts.defaultSchemaLoader != nil {
-		return gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc)), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc))}, nil
 	}
 
+	schemaLoaders := []gojsonschema.JSONLoader{schemaLoader}
+
 	for _, schema := range vcc.Schemas {
 		switch schema.Type {
 		case jsonSchema2018Type, jsonSchemaType:
@@ -2221,7 +2227,7 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)
 			}
 
-			return gojsonschema.NewBytesLoader(customSchemaData), nil
+			schemaLoaders = append(schemaLoaders, gojsonschema.NewBytesLoader(customSchemaData))
 		//TODO: add support for JSON Schema Credential
 		case jsonSchemaCredentialType:
 			// TODO: should unsupported schema type be ignored or should this cause an error?
@@ -2232,7 +2238,7 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 		}
 	}
 
-	return schemaLoader, nil
+	return schemaLoaders, nil
 }
 
 type schemaOpts struct {
-- 
2.43.0


From 0744e67eab41281104d12448ef8315be86ddb25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 58/80] fix: expire cached schemas when configured, not up to a
 second later

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 007399b..fa35abc 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -726,7 +726,7 @@ func (b *CredentialSchemaLoaderBuilder) Build() *CredentialSchemaLoader {
 
 // Put element to the cache. It also adds a mark of when the element will expire.
 func (sc *ExpirableSchemaCache) Put(k string, v []byte) {
-	expires := time.Now().Add(sc.expiration).Unix()
+	expires := time.Now().Add(sc.expiration).UnixMilli()
 
 	const numBytesTime = 8
 
@@ -751,7 +751,7 @@ func (sc *ExpirableSchemaCache) Get(k string) ([]byte, bool) {
 	const numBytesTime = 8
 
 	expires := int64(binary.LittleEndian.Uint64(b[:numBytesTime]))
-	if expires < time.Now().Unix() {
+	if expires < time.Now().UnixMilli() {
 		// cache expires
 		sc.cache.Del([]byte(k))
 		return nil, false
-- 
2.43.0


From 8b1a298b907fe930fcd2ff51709e896000c46bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 59/80] fix: refuse a credential with an empty @context

---
 verifiable/credential.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index fa35abc..b2cf715 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -65,6 +65,7 @@ const SchemaTemplateV1 = `{
         },
         {
           "type": "array",
+          "minItems": 1,
           "items": [
             {
               "type": "string",
-- 
2.43.0


From cc7dcc41c91fc3377927113de3da8a9c4c1ad05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 60/80] fix: refuse a BBS+ derivation whose statements were not
 signed

---
 verifiable/bbs_selective_disclosure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 561354e..5c5b8b5 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -237,7 +237,12 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	for i := range revealDocumentStatements {
 		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("revealed statement is not part of the signed document: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


From 55fd823b9221476192b734833b2705c8d3050df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 61/80] fix: check that a BBS+ signature proof covers every
 statement

---
 crypto-ext/verifiers/bbs/verifier.go | 50 ++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..61b0487 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,6 +8,7 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"strings"
@@ -93,8 +94,53 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	if err := checkRevealedCount(signature, len(messages)); err != nil {
+		return err
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// checkRevealedCount checks that the signature proof reveals exactly the given number of messages:
+// messages beyond the revealed ones are not covered by the proof.
+func checkRevealedCount(signatureProof []byte, messages int) error {
+	const (
+		countLen = 2
+		byteBits = 8
+	)
+
+	if len(signatureProof) < countLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	total := int(binary.BigEndian.Uint16(signatureProof))
+	payloadLen := countLen + total/byteBits + 1
+
+	if len(signatureProof) < payloadLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	revealed := 0
+
+	for i := range (payloadLen - countLen) * byteBits {
+		if signatureProof[payloadLen-1-i/byteBits]&(1<<(i%byteBits)) == 0 {
+			continue
+		}
+
+		if i >= total {
+			return errors.New("signature proof reveals a message that was not signed")
+		}
+
+		revealed++
+	}
+
+	if revealed != messages {
+		return fmt.Errorf("signature proof reveals %d messages, got %d", revealed, messages)
+	}
+
+	return nil
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From 8997d3bc503d7ee52a62ec6c2adf7ee7063f51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 62/80] fix: put the statements of a BBS+ derived document in
 signed order

---
 .../bbsblssignatureproof2020/proof.go         | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/proof/ldproofs/bbsblssignatureproof2020/proof.go b/proof/ldproofs/bbsblssignatureproof2020/proof.go
index 2e14d2b..eb1e3dc 100644
--- a/proof/ldproofs/bbsblssignatureproof2020/proof.go
+++ b/proof/ldproofs/bbsblssignatureproof2020/proof.go
@@ -15,6 +15,8 @@ package bbsblssignatureproof2020
 // It uses BLS12-381 pairing-friendly curve (https://tools.ietf.org/html/draft-irtf-cfrg-pairing-friendly-curves-03).
 
 import (
+	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -37,6 +39,9 @@ const (
 	rdfDataSetAlg          = "URDNA2015"
 )
 
+// blankNodeIRI is an identifier that stands for a blank node in a derived document.
+var blankNodeIRI = regexp.MustCompile(`^<urn:bnid:(_:c14n[0-9]+)>`)
+
 // New an instance of Linked Data Signatures for the suite.
 func New() *Proof {
 	p := &Proof{jsonldProcessor: processor.NewProcessor(rdfDataSetAlg)}
@@ -72,7 +77,41 @@ func (s *Proof) GetCanonicalDocument(doc map[string]interface{}, opts ...process
 		}
 	}
 
-	return s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	canonical, err := s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	if err != nil {
+		return nil, err
+	}
+
+	return restoreBlankNodes(canonical), nil
+}
+
+// restoreBlankNodes replaces the identifiers that stand for blank nodes ("urn:bnid:_:c14n0") by the blank nodes
+// ("_:c14n0") and puts the statements in the order they have with these, which is the order they were signed in.
+func restoreBlankNodes(canonical []byte) []byte {
+	rows := strings.SplitAfter(string(canonical), "\n")
+
+	const (
+		subject = iota
+		predicate
+		object
+		terms
+	)
+
+	for i, row := range rows {
+		parts := strings.SplitN(row, " ", terms)
+		if len(parts) != terms {
+			continue
+		}
+
+		parts[subject] = blankNodeIRI.ReplaceAllString(parts[subject], "$1")
+		parts[object] = blankNodeIRI.ReplaceAllString(parts[object], "$1")
+
+		rows[i] = strings.Join(parts, " ")
+	}
+
+	sort.Strings(rows)
+
+	return []byte(strings.Join(rows, ""))
 }
 
 // GetDigest returns the doc itself as we would process N-Quads statements as messages to be signed/verified.
-- 
2.43.0


From 165453978fbc2cd56db5622d2bec48f759241902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 63/80] fix: refuse inline contexts under base-context
 validation

---
 verifiable/credential.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index b2cf715..5558159 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1643,11 +1643,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
@@ -1662,6 +1662,10 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 		}
 	}
 
+	if len(vcc.CustomContext) > 0 {
+		return errors.New("not allowed inline @context")
+	}
+
 	for _, vcType := range vcc.Types {
 		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {
 			return fmt.Errorf("not allowed type: %s", vcType)
-- 
2.43.0


From 92688356b362f052d78ae537a2da9c4d096251c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 64/80] fix: strict validation checks members at every depth

---
 verifiable/credential.go   | 15 ++++++++++++++-
 verifiable/jsonld.go       | 25 +++++++++++++++++++++++++
 verifiable/presentation.go | 12 +++++++++++-
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 5558159..bc33a33 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1610,7 +1610,14 @@ func parseCredentialJSON(vcJSON []byte) (JSONObject, error) {
 func (vc *Credential) ValidateCredential(opts ...CredentialOpt) error {
 	vcOpts := getCredentialOpts(opts)
 
-	return validateCredential(&vc.credentialContents, vc.credentialJSON, vcOpts)
+	// Validation expects values of the types JSON decoding produces, while a created credential can have others,
+	// like slices of objects.
+	vcJSON, err := jsonutil.ToMap(vc.credentialJSON)
+	if err != nil {
+		return fmt.Errorf("credential to map: %w", err)
+	}
+
+	return validateCredential(&vc.credentialContents, vcJSON, vcOpts)
 }
 
 func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *credentialOpts) error {
@@ -1704,6 +1711,12 @@ func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credenti
 		return err
 	}
 
+	if vcOpts.strictValidation {
+		if err = validateDefinedMembers(vcJSON, &vcOpts.jsonldCredentialOpts); err != nil {
+			return err
+		}
+	}
+
 	if vcOpts.enableJsonLDTypesCheck {
 		if err = docjsonld.ValidateJSONLDTypes(jsonutil.ShallowCopyObj(vcJSON),
 			validateOpts...,
diff --git a/verifiable/jsonld.go b/verifiable/jsonld.go
index 0dd26bf..94f902e 100644
--- a/verifiable/jsonld.go
+++ b/verifiable/jsonld.go
@@ -8,6 +8,11 @@ package verifiable
 import (
 	"errors"
 	"fmt"
+
+	"github.com/piprate/json-gold/ld"
+	"github.com/trustbloc/did-go/doc/ld/processor"
+
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 const (
@@ -81,3 +86,23 @@ func HasBaseContext(doc map[string]interface{}, ctx string) bool {
 
 	return IsBaseContext(contexts, ctx)
 }
+
+// validateDefinedMembers checks that the contexts define each member of the document, at every depth. It goes where
+// the comparison of a document with its compacted form does not: into arrays of several objects.
+func validateDefinedMembers(doc map[string]interface{}, opts *jsonldCredentialOpts) error {
+	options := ld.NewJsonLdOptions("")
+	options.ProcessingMode = ld.JsonLd_1_1
+	options.DocumentLoader = opts.jsonldDocumentLoader
+	options.SafeMode = true
+
+	doc = jsonutil.ShallowCopyObj(doc)
+	if len(opts.externalContext) > 0 {
+		doc["@context"] = processor.AppendExternalContexts(doc["@context"], opts.externalContext...)
+	}
+
+	if _, err := ld.NewJsonLdProcessor().Expand(doc, options); err != nil {
+		return fmt.Errorf("expand JSON-LD document: %w", err)
+	}
+
+	return nil
+}
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 5736f6f..ed20dc0 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -1038,11 +1038,21 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
 	defer ldrecover.Error(&err)
 
-	return docjsonld.ValidateJSONLDMap(vpBytes,
+	err = docjsonld.ValidateJSONLDMap(vpBytes,
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
 		docjsonld.WithStrictValidation(opts.strictValidation),
 	)
+	if err != nil || !opts.strictValidation {
+		return err
+	}
+
+	if HasBaseContext(vpBytes, V2ContextURI) {
+		// Data model 2 starts over with the contexts of each credential, outside of the comparison above.
+		vpBytes = jsonutil.CopyExcept(vpBytes, vpFldCredential)
+	}
+
+	return validateDefinedMembers(vpBytes, &opts.jsonldCredentialOpts)
 }
 
 func validateVPJSONSchema(data rawPresentation) error {
-- 
2.43.0


From b8e1cf92bed407d6a2b7b52a4e6e9d3aab295e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 65/80] fix: modified times go where the data model has them

---
 verifiable/credential.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index bc33a33..aa5d771 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2682,7 +2682,7 @@ func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, newContents.Context, jsonFldIssued, jsonFldValidFrom, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2696,7 +2696,7 @@ func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, newContents.Context, jsonFldExpired, jsonFldValidUntil, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2710,7 +2710,7 @@ func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credenti
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, newContents.Context, jsonFldIssued, jsonFldValidFrom, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2724,7 +2724,7 @@ func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credent
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, newContents.Context, jsonFldExpired, jsonFldValidUntil, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2847,6 +2847,20 @@ func (vc *Credential) SetCustomField(name string, value interface{}) {
 	vc.credentialJSON[name] = value
 }
 
+// setTimeFld puts the time into the member that the data model of the credential has for it.
+func setTimeFld(vcJSON JSONObject, contexts []string, v1Fld, v2Fld string, value *util.TimeWrapper) {
+	delete(vcJSON, v1Fld)
+	delete(vcJSON, v2Fld)
+
+	switch {
+	case value == nil:
+	case IsBaseContext(contexts, V2ContextURI):
+		vcJSON[v2Fld] = serializeTime(value)
+	default:
+		vcJSON[v1Fld] = serializeTime(value)
+	}
+}
+
 func copyCredentialJSONWithoutProofs(credentialJSON JSONObject) JSONObject {
 	newContent := jsonutil.ShallowCopyObj(credentialJSON)
 	delete(newContent, jsonFldLDProof)
-- 
2.43.0


From a2bdb734342a3ce80e90d034c8364c61473c9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 66/80] fix: give out copies of a credential's documents

---
 verifiable/clone.go            | 81 ++++++++++++++++++++++++++++++++++
 verifiable/credential.go       | 23 +++++-----
 verifiable/credential_cwt.go   |  3 +-
 verifiable/credential_jwt.go   |  2 +-
 verifiable/credential_sdjwt.go |  2 +-
 5 files changed, 96 insertions(+), 15 deletions(-)
 create mode 100644 verifiable/clone.go

diff --git a/verifiable/clone.go b/verifiable/clone.go
new file mode 100644
index 0000000..c8cd901
--- /dev/null
+++ b/verifiable/clone.go
@@ -0,0 +1,81 @@
+/*
+Copyright SecureKey Technologies Inc. All Rights Reserved.
+SPDX-License-Identifier: Apache-2.0
+*/
+
+package verifiable
+
+import (
+	"golang.org/x/exp/slices"
+)
+
+// cloneContents copies credential contents, so that changes to the copy do not reach the original.
+func cloneContents(vcc CredentialContents) CredentialContents {
+	vcc.Context = slices.Clone(vcc.Context)
+	vcc.CustomContext = cloneSlice(vcc.CustomContext)
+	vcc.Types = slices.Clone(vcc.Types)
+	vcc.Subject = slices.Clone(vcc.Subject)
+	vcc.Issuer = clonePtr(vcc.Issuer)
+	vcc.Issued = clonePtr(vcc.Issued)
+	vcc.Expired = clonePtr(vcc.Expired)
+	vcc.Status = slices.Clone(vcc.Status)
+	vcc.Schemas = cloneTypedIDs(vcc.Schemas)
+	vcc.Evidence = cloneValue(vcc.Evidence)
+	vcc.TermsOfUse = cloneTypedIDs(vcc.TermsOfUse)
+	vcc.RefreshService = cloneTypedID(vcc.RefreshService)
+	vcc.SDJWTHashAlg = clonePtr(vcc.SDJWTHashAlg)
+	vcc.RelatedResources = slices.Clone(vcc.RelatedResources)
+
+	for i := range vcc.Subject {
+		vcc.Subject[i].CustomFields = cloneMap(vcc.Subject[i].CustomFields)
+	}
+
+	if vcc.Issuer != nil {
+		vcc.Issuer.CustomFields = cloneMap(vcc.Issuer.CustomFields)
+	}
+
+	for i := range vcc.Status {
+		vcc.Status[i] = cloneTypedID(vcc.Status[i])
+	}
+
+	return vcc
+}
+
+func cloneTypedIDs(typedIDs []TypedID) []TypedID {
+	typedIDs = slices.Clone(typedIDs)
+
+	for i := range typedIDs {
+		typedIDs[i].CustomFields = cloneMap(typedIDs[i].CustomFields)
+	}
+
+	return typedIDs
+}
+
+func cloneTypedID(typedID *TypedID) *TypedID {
+	clone := clonePtr(typedID)
+	if clone != nil {
+		clone.CustomFields = cloneMap(clone.CustomFields)
+	}
+
+	return clone
+}
+
+func cloneProofs(proofs []Proof) []Proof {
+	proofs = slices.Clone(proofs)
+
+	for i := range proofs {
+		proofs[i] = cloneMap(proofs[i])
+	}
+
+	return proofs
+}
+
+func clonePtr[T any](ptr *T) *T {
+	if ptr == nil {
+		return nil
+	}
+
+	clone := *ptr
+
+	return &clone
+}
diff --git a/verifiable/credential.go b/verifiable/credential.go
index aa5d771..a64e292 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -926,18 +926,16 @@ func (ec *Envelope) ToRawJSON() (JSONObject, error) {
 
 // Contents returns credential contents as typed structure.
 func (vc *Credential) Contents() CredentialContents {
-	// TODO: consider deep copy
-	return vc.credentialContents
+	return cloneContents(vc.credentialContents)
 }
 
 // ToRawJSON return vc as json object. For json-ld vc this will be original json object.
 // For jwt vc it will be jwt claims json object.
 func (vc *Credential) ToRawJSON() JSONObject {
-	// TODO: consider deep copy
-	raw := jsonutil.ShallowCopyObj(vc.credentialJSON)
+	raw := cloneMap(vc.credentialJSON)
 
 	if len(vc.ldProofs) > 0 {
-		raw[jsonFldLDProof] = proofsToRaw(vc.ldProofs)
+		raw[jsonFldLDProof] = proofsToRaw(cloneProofs(vc.ldProofs))
 	}
 
 	return raw
@@ -1036,7 +1034,7 @@ func (vc *Credential) JWTHeaders() jose.Headers {
 		return nil
 	}
 
-	return vc.JWTEnvelope.JWTHeaders
+	return cloneMap(vc.JWTEnvelope.JWTHeaders)
 }
 
 // SDJWTDisclosures returns sd disclosures for sdjwt.
@@ -1061,7 +1059,7 @@ func (vc *Credential) SetSDJWTDisclosures(disclosures []*common.DisclosureClaim)
 
 // CustomField returns custom field by name.
 func (vc *Credential) CustomField(name string) interface{} {
-	return vc.credentialJSON[name]
+	return cloneValue(vc.credentialJSON[name])
 }
 
 const (
@@ -1436,6 +1434,9 @@ func CreateCredentialWithProofs(vcc CredentialContents, customFields CustomField
 
 // ParseCredentialJSON parses Verifiable Credential from json-ld object.
 func ParseCredentialJSON(vcJSON JSONObject, opts ...CredentialOpt) (*Credential, error) {
+	// the credential is changed in place later on, the caller's document is not
+	vcJSON = cloneMap(vcJSON)
+
 	types, err := decodeType(vcJSON[jsonFldType])
 	if err != nil {
 		return nil, fmt.Errorf("decode type: %w", err)
@@ -2183,7 +2184,7 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} { return SubjectToJSON(s) })
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2509,7 +2510,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2604,7 +2605,7 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(t TypedID) interface{} { return serializeTypedIDObj(t) })
 	}
 }
 
@@ -2862,7 +2863,7 @@ func setTimeFld(vcJSON JSONObject, contexts []string, v1Fld, v2Fld string, value
 }
 
 func copyCredentialJSONWithoutProofs(credentialJSON JSONObject) JSONObject {
-	newContent := jsonutil.ShallowCopyObj(credentialJSON)
+	newContent := cloneMap(credentialJSON)
 	delete(newContent, jsonFldLDProof)
 
 	return newContent
diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index cb7a929..36ed0da 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -12,7 +12,6 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/cwt"
-	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 // CWTClaims converts Verifiable Credential into CWT Credential claims, which can be than serialized
@@ -50,7 +49,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
-	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
+	credentialJSONCopy := cloneMap(vc.credentialJSON)
 
 	credClaims := &CWTCredClaims{
 		CWTClaims: claims,
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 9ecef62..06bd139 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -126,7 +126,7 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 		jwtClaims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time)
 	}
 
-	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
+	credentialJSONCopy := cloneMap(vc.credentialJSON)
 
 	if minimizeVC {
 		delete(credentialJSONCopy, jsonFldExpired)
diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index db49510..ffb6291 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -535,7 +535,7 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	}
 
 	if vc.credentialContents.SDJWTHashAlg == nil || vc.JWTEnvelope == nil {
-		return vc.credentialJSON, nil
+		return cloneMap(vc.credentialJSON), nil
 	}
 
 	credClaims := &JWTCredClaims{}
-- 
2.43.0


From a729e1d340e8ea7fdec5daf5edaa36289cecdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 67/80] fix: keep external contexts out of the checked document

---
 verifiable/data_integrity_proof.go | 14 ++++++++------
 verifiable/embedded_proof.go       |  2 ++
 verifiable/presentation.go         |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 514e338..5faa687 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -86,12 +86,13 @@ func addDataIntegrityProof(
 		expiresTime = *context.Expires
 	}
 
-	if context.ProofPurpose == "" {
-		context.ProofPurpose = assertionMethod
+	purpose := context.ProofPurpose
+	if purpose == "" {
+		purpose = assertionMethod
 	}
 
 	signed, err := signer.AddProof(ldBytes, &models.ProofOptions{
-		Purpose:              context.ProofPurpose,
+		Purpose:              purpose,
 		VerificationMethodID: context.SigningKeyID,
 		ProofType:            models.DataIntegrityProof,
 		SuiteType:            context.CryptoSuite,
@@ -133,12 +134,13 @@ func checkDataIntegrityProof(ldBytes []byte, opts *verifyDataIntegrityOpts) erro
 		return errors.New("data integrity proof needs data integrity verifier")
 	}
 
-	if opts.Purpose == "" {
-		opts.Purpose = assertionMethod
+	purpose := opts.Purpose
+	if purpose == "" {
+		purpose = assertionMethod
 	}
 
 	return opts.Verifier.VerifyProof(ldBytes, &models.ProofOptions{
-		Purpose:   opts.Purpose,
+		Purpose:   purpose,
 		ProofType: models.DataIntegrityProof,
 		Domain:    opts.Domain,
 		Challenge: opts.Challenge,
diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 9b372c1..023cde5 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -14,6 +14,7 @@ import (
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
 	"github.com/trustbloc/vc-go/dataintegrity/models"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -58,6 +59,7 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		jsonldDoc = jsonutil.ShallowCopyObj(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index ed20dc0..41a0084 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -1038,7 +1038,7 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
 	defer ldrecover.Error(&err)
 
-	err = docjsonld.ValidateJSONLDMap(vpBytes,
+	err = docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(vpBytes),
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
 		docjsonld.WithStrictValidation(opts.strictValidation),
-- 
2.43.0


From 5b6f9a0c213a19564ec79d3b1c7d432c6ad05355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 68/80] fix: leave Data Integrity signing options as given

---
 dataintegrity/signer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index 0d6257c..d43596d 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -88,7 +88,11 @@ var (
 //
 // If signing fails, or the created proof is invalid, AddProof returns
 // ErrProofGeneration.
-func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error) { // nolint:gocyclo
+func (s *Signer) AddProof(doc []byte, proofOpts *models.ProofOptions) ([]byte, error) { // nolint:gocyclo
+	// The verification method found below belongs to this proof, it is not left in the options of the caller.
+	optsCopy := *proofOpts
+	opts := &optsCopy
+
 	signerSuite, ok := s.suites[opts.SuiteType]
 	if !ok {
 		return nil, ErrUnsupportedSuite
-- 
2.43.0


From bf3459db98b4aaddff9c9549fbffbfb5bd0c677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 69/80] fix: limit SD-JWT credentials in a copy

---
 presexch/definition.go |  7 +++----
 verifiable/clone.go    | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 5edc5da..4a7b1f7 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1144,12 +1144,11 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 
 // withSDJWTDisclosures gives a copy of the credential that has the given disclosures only.
 func withSDJWTDisclosures(credential *verifiable.Credential, disclosures []*common.DisclosureClaim) *verifiable.Credential {
-	limited, envelope := *credential, *credential.JWTEnvelope
+	limited := credential.Clone()
 
-	envelope.SDJWTDisclosures = disclosures
-	limited.JWTEnvelope = &envelope
+	limited.JWTEnvelope.SDJWTDisclosures = disclosures
 
-	return &limited
+	return limited
 }
 
 // getLimitedDisclosures gives the disclosures that make the requested fields visible: those of the values the fields
diff --git a/verifiable/clone.go b/verifiable/clone.go
index c8cd901..fd73c9a 100644
--- a/verifiable/clone.go
+++ b/verifiable/clone.go
@@ -9,6 +9,28 @@ import (
 	"golang.org/x/exp/slices"
 )
 
+// Clone returns a copy of the credential that can be changed without changing the original.
+func (vc *Credential) Clone() *Credential {
+	clone := &Credential{
+		credentialJSON:     cloneMap(vc.credentialJSON),
+		credentialContents: cloneContents(vc.credentialContents),
+		ldProofs:           cloneProofs(vc.ldProofs),
+		JWTEnvelope:        clonePtr(vc.JWTEnvelope),
+		CWTEnvelope:        clonePtr(vc.CWTEnvelope),
+	}
+
+	if clone.JWTEnvelope != nil {
+		clone.JWTEnvelope.JWTHeaders = cloneMap(clone.JWTEnvelope.JWTHeaders)
+		clone.JWTEnvelope.SDJWTDisclosures = slices.Clone(clone.JWTEnvelope.SDJWTDisclosures)
+	}
+
+	if clone.CWTEnvelope != nil {
+		clone.CWTEnvelope.Sign1MessageRaw = slices.Clone(clone.CWTEnvelope.Sign1MessageRaw)
+	}
+
+	return clone
+}
+
 // cloneContents copies credential contents, so that changes to the copy do not reach the original.
 func cloneContents(vcc CredentialContents) CredentialContents {
 	vcc.Context = slices.Clone(vcc.Context)
-- 
2.43.0


From b0dab1840397c080c8dd9ba454e1a53cf0ae82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 70/80] fix: do not write behind the end of the caller's
 options

---
 presexch/definition.go                 | 2 +-
 verifiable/bbs_selective_disclosure.go | 2 +-
 verifiable/credential_bbs.go           | 2 +-
 verifiable/lddocument/signer.go        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 4a7b1f7..a3ef2a8 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1430,7 +1430,7 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	}
 
 	if !doBBS || modifiedByPredicate {
-		opts = append(opts, verifiable.WithDisabledProofCheck())
+		opts = append(opts[:len(opts):len(opts)], verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 5c5b8b5..d27e778 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -216,7 +216,7 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 		return nil, fmt.Errorf("create verify document data: %w", err)
 	}
 
-	optionsWithBlankFrames := append(opts, processor.WithFrameBlankNodes())
+	optionsWithBlankFrames := append(opts[:len(opts):len(opts)], processor.WithFrameBlankNodes())
 
 	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
 	if err != nil {
diff --git a/verifiable/credential_bbs.go b/verifiable/credential_bbs.go
index 8340792..558773e 100644
--- a/verifiable/credential_bbs.go
+++ b/verifiable/credential_bbs.go
@@ -43,7 +43,7 @@ func (vc *Credential) GenerateBBSSelectiveDisclosure(revealDoc map[string]interf
 		return nil, err
 	}
 
-	opts = append(opts, WithDisabledProofCheck())
+	opts = append(opts[:len(opts):len(opts)], WithDisabledProofCheck())
 
 	return ParseCredential(vcWithSelectiveDisclosureBytes, opts...)
 }
diff --git a/verifiable/lddocument/signer.go b/verifiable/lddocument/signer.go
index 39a844d..da63590 100644
--- a/verifiable/lddocument/signer.go
+++ b/verifiable/lddocument/signer.go
@@ -109,7 +109,7 @@ func (ds *DocumentSigner) signObject(context *SigningContext, jsonLdObject map[s
 	message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 		wrapped: ds.signer,
 		proof:   p,
-	}, jsonLdObject, p, append(opts, processor.WithValidateRDF())...)
+	}, jsonLdObject, p, append(opts[:len(opts):len(opts)], processor.WithValidateRDF())...)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 70cc738d3eca3354c42e2e818408c18af1e4d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 71/80] fix: leave out impossible sets of descriptors when
 looking for a solution

---
 .../requirementlogic/requirementlogic.go      | 89 +++++++++++++++++--
 1 file changed, 81 insertions(+), 8 deletions(-)

diff --git a/presexch/internal/requirementlogic/requirementlogic.go b/presexch/internal/requirementlogic/requirementlogic.go
index d1e0e91..ff5d118 100644
--- a/presexch/internal/requirementlogic/requirementlogic.go
+++ b/presexch/internal/requirementlogic/requirementlogic.go
@@ -90,6 +90,47 @@ func (r *RequirementLogic) isLenApplicable(val int) bool {
 	return true
 }
 
+// outcomes tells whether some, and whether every, set of descriptors satisfies the given requirement logic, among
+// those that hold all of the chosen descriptors and any of the open ones.
+func (r *RequirementLogic) outcomes(chosen, open DescriptorIDSet) (possible, certain bool) {
+	least, most := 0, 0
+
+	if len(r.Nested) == 0 {
+		for id := range toMap(r.InputDescriptorIDs) {
+			if chosen.Has(id) {
+				least++
+				most++
+			} else if open.Has(id) {
+				most++
+			}
+		}
+	}
+
+	for _, logic := range r.Nested {
+		nestedPossible, nestedCertain := logic.outcomes(chosen, open)
+
+		if nestedCertain {
+			least++
+		}
+
+		if nestedPossible {
+			most++
+		}
+	}
+
+	certain = true
+
+	for val := least; val <= most; val++ {
+		if r.isLenApplicable(val) {
+			possible = true
+		} else {
+			certain = false
+		}
+	}
+
+	return possible, certain
+}
+
 // SolutionIterator iterates through solutions to a RequirementLogic. Each
 // solution is a list of Input Descriptor IDs, that should satisfy the
 // RequirementLogic from which the SolutionIterator has been created.
@@ -254,24 +295,56 @@ func (b *BitsetSolutionIterator) excludeDescriptors(excludeIdx map[int]struct{})
 	b.descs = updatedDescs
 }
 
+// incrementUntilValid moves to the first valid candidate from the current state onwards. The bits are decided from the
+// highest down, leaving out all candidates that start with bits no solution can start with.
 func (b *BitsetSolutionIterator) incrementUntilValid() []string {
-	curr := b.current()
+	if b.state.Sign() == 0 || b.state.BitLen() > len(b.descs) {
+		return nil
+	}
 
-	if curr == nil {
+	if !b.decide(len(b.descs)-1, true, DescriptorIDSet{}, toMap(b.descs)) {
 		return nil
 	}
 
-	for !b.req.IsSatisfiedBy(toMap(curr)) {
-		b.state.Add(b.state, big.NewInt(1))
+	return b.current()
+}
 
-		curr = b.current()
+// decide sets the bits from idx down to those of the first valid candidate, given that the higher bits have chosen the
+// descriptors in chosen, while those in open are yet to be decided. With onBound, the higher bits are the ones that the
+// state had at first, which is the lowest candidate considered.
+func (b *BitsetSolutionIterator) decide(idx int, onBound bool, chosen, open DescriptorIDSet) bool {
+	if possible, _ := b.req.outcomes(chosen, open); !possible {
+		return false
+	}
 
-		if curr == nil {
-			return nil
+	if idx < 0 {
+		return true
+	}
+
+	desc, bound := b.descs[idx], b.state.Bit(idx)
+
+	delete(open, desc)
+	defer open.Add(desc)
+
+	if !onBound || bound == 0 {
+		b.state.SetBit(b.state, idx, 0)
+
+		if b.decide(idx-1, onBound, chosen, open) {
+			return true
 		}
 	}
 
-	return curr
+	if onBound && bound == 0 {
+		// nothing with this bit clear: the rest is free.
+		onBound = false
+	}
+
+	b.state.SetBit(b.state, idx, 1)
+
+	chosen.Add(desc)
+	defer delete(chosen, desc)
+
+	return b.decide(idx-1, onBound, chosen, open)
 }
 
 func (b *BitsetSolutionIterator) current() []string {
-- 
2.43.0


From b54f38f660bf4cf175edf7e47c1eb2d8428f920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 72/80] fix: refuse submissions with absent mappings

---
 presexch/api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 3abe21d..df34af7 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -204,7 +204,11 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			}
 		}
 
-		for _, mapping := range descriptorMap {
+		for i, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("%s.%d is not an object", descriptorMapProperty, i)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
-- 
2.43.0


From decf5fab65cb0678bc661ee3894983b913e01187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 73/80] fix: skip linkage credentials without an issuer

---
 didconfig/verifier/didconfig.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index b1f8d54..b02b63e 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -416,9 +416,8 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
-		if vc.Contents().Issuer.ID != did {
-			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
-				vc.Contents().Issuer.ID, did)
+		if issuer := vc.Contents().Issuer; issuer == nil || issuer.ID != did {
+			debugLogger.Printf("skipping credential since its issuer is different from DID[%s]", did)
 
 			continue
 		}
-- 
2.43.0


From 76508568b2c50b155a97200b870ef735e0fae64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 74/80] fix: refuse definitions whose input descriptors share
 an id

---
 presexch/definition.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index a3ef2a8..3f9c92d 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -456,6 +456,16 @@ func toRequirement(sr *SubmissionRequirement, descriptors []*InputDescriptor) (*
 }
 
 func makeRequirement(requirements []*SubmissionRequirement, descriptors []*InputDescriptor) (*requirement, error) {
+	seen := map[string]struct{}{}
+
+	for _, descriptor := range descriptors {
+		if _, ok := seen[descriptor.ID]; ok {
+			return nil, fmt.Errorf("several input descriptors have id %q", descriptor.ID)
+		}
+
+		seen[descriptor.ID] = struct{}{}
+	}
+
 	if len(requirements) == 0 {
 		return &requirement{
 			Count:            len(descriptors),
-- 
2.43.0


From 0937993159adb6353a292079c4255037f453ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 75/80] fix: limited disclosure of BBS+ credentials reveals the
 requested values and nothing else

---
 presexch/definition.go | 80 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 9 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 3f9c92d..993616b 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -49,6 +49,9 @@ const (
 
 	credentialSchema = "credentialSchema"
 
+	subjectPath = "credentialSubject"
+	issuerPath  = "issuer"
+
 	// disclosureArrayElementParts are the parts of the disclosure of an array element: one of an object has one more.
 	disclosureArrayElementParts = 2
 
@@ -1408,7 +1411,7 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	var (
 		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
 		modifiedByPredicate bool
-		explicitPaths       = make(map[string]bool)
+		template            = limitedCred
 	)
 
 	jPaths, err := compactArrayPaths(constraints.Fields, src, limitedCred, credential.IsJWT())
@@ -1428,11 +1431,6 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 			val = true
 		}
 
-		if doBBS {
-			explicitPath, _ := splitLast(path.newPath, ".")
-			explicitPaths[explicitPath] = true
-		}
-
 		limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
 		if err != nil {
 			return nil, err
@@ -1444,17 +1442,81 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
-	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
+	doc, err := bbsRevealDoc(jPaths, src, template)
+	if err != nil {
+		return nil, err
+	}
+
+	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
+}
+
+// bbsRevealDoc is the frame that reveals the template and the selected values of a credential.
+func bbsRevealDoc(jPaths []*pathTransform, src, template []byte) (map[string]interface{}, error) {
+	var err error
+
+	revealDoc := template
+	explicitPaths := make(map[string]bool)
+
+	// A frame selects by value, an empty object stands for whatever is there. Of the subjects the template has the IDs.
+	if gjson.GetBytes(template, subjectPath).Exists() {
+		explicitPaths[subjectPath] = true
+
+		if revealDoc, err = sjson.SetBytes(revealDoc, subjectPath, struct{}{}); err != nil {
+			return nil, err
+		}
+	}
+
+	if gjson.GetBytes(template, issuerPath).IsObject() {
+		if revealDoc, err = sjson.SetBytes(revealDoc, issuerPath, struct{}{}); err != nil {
+			return nil, err
+		}
+	}
+
+	for _, path := range jPaths {
+		partOfOther := lo.SomeBy(jPaths, func(other *pathTransform) bool {
+			return other.oldPath != path.oldPath && isInside(path.oldPath, other.oldPath)
+		})
+
+		if partOfOther || isInside(path.oldPath, issuerPath) || strings.Contains(path.newPath, credentialSchema) {
+			continue
+		}
+
+		if lo.SomeBy(path.steps, func(step spec.NormalSelector) bool { _, index := step.(spec.Index); return index }) {
+			return nil, fmt.Errorf("select %s: a BBS+ signature does not tell elements of an array apart", path.oldPath)
+		}
+
+		if parent, last := splitLast(path.newPath, "."); parent != "" {
+			explicitPaths[parent] = true
+		} else if last == subjectPath {
+			delete(explicitPaths, subjectPath)
+		}
+
+		if revealDoc, err = sjson.SetBytes(revealDoc, path.newPath, path.frame()); err != nil {
+			return nil, err
+		}
+	}
+
+	revealDoc, err = enhanceRevealDoc(explicitPaths, revealDoc, src)
 	if err != nil {
 		return nil, err
 	}
 
 	var doc map[string]interface{}
-	if err := json.Unmarshal(revealDoc, &doc); err != nil {
+	if err = json.Unmarshal(revealDoc, &doc); err != nil {
 		return nil, err
 	}
 
-	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
+	return doc, nil
+}
+
+// frame selects the value of the path: any value, except for what identifies a node.
+func (t *pathTransform) frame() interface{} {
+	switch _, last := splitLast(t.newPath, "."); last {
+	case "id", "type", "\\@id", "\\@type", "\\@context":
+		return t.value
+	default:
+		return struct{}{}
+	}
 }
 
 // splitLast finds the final occurrence of split in text, and returns (everything before, everything after).
-- 
2.43.0


From b73eeb0e468bd88774c7c469436d8c3e6079e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:30 +0000
Subject: [PATCH 76/80] fix: clone the COSE message of a presentation, too

---
 verifiable/clone.go        | 52 ++++++++++++++++++++++++++++++++++++++
 verifiable/presentation.go |  2 +-
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/verifiable/clone.go b/verifiable/clone.go
index fd73c9a..a0913be 100644
--- a/verifiable/clone.go
+++ b/verifiable/clone.go
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 package verifiable
 
 import (
+	"github.com/veraison/go-cose"
 	"golang.org/x/exp/slices"
 )
 
@@ -26,6 +27,7 @@ func (vc *Credential) Clone() *Credential {
 
 	if clone.CWTEnvelope != nil {
 		clone.CWTEnvelope.Sign1MessageRaw = slices.Clone(clone.CWTEnvelope.Sign1MessageRaw)
+		clone.CWTEnvelope.Sign1MessageParsed = cloneSign1Message(clone.CWTEnvelope.Sign1MessageParsed)
 	}
 
 	return clone
@@ -92,6 +94,56 @@ func cloneProofs(proofs []Proof) []Proof {
 	return proofs
 }
 
+// cloneSign1Message copies a COSE message with its headers.
+func cloneSign1Message(msg *cose.Sign1Message) *cose.Sign1Message {
+	clone := clonePtr(msg)
+	if clone == nil {
+		return nil
+	}
+
+	clone.Headers.RawProtected = slices.Clone(msg.Headers.RawProtected)
+	clone.Headers.RawUnprotected = slices.Clone(msg.Headers.RawUnprotected)
+	clone.Headers.Protected = cloneHeader(msg.Headers.Protected)
+	clone.Headers.Unprotected = cloneHeader(msg.Headers.Unprotected)
+	clone.Payload = slices.Clone(msg.Payload)
+	clone.Signature = slices.Clone(msg.Signature)
+
+	return clone
+}
+
+func cloneHeader[M ~map[interface{}]interface{}](m M) M {
+	if m == nil {
+		return nil
+	}
+
+	clone := make(M, len(m))
+
+	for k, v := range m {
+		clone[k] = cloneHeaderValue(v)
+	}
+
+	return clone
+}
+
+func cloneHeaderValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case []byte:
+		return slices.Clone(v)
+	case []interface{}:
+		clone := make([]interface{}, len(v))
+
+		for i := range v {
+			clone[i] = cloneHeaderValue(v[i])
+		}
+
+		return clone
+	case map[interface{}]interface{}:
+		return cloneHeader(v)
+	default:
+		return value
+	}
+}
+
 func clonePtr[T any](ptr *T) *T {
 	if ptr == nil {
 		return nil
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 41a0084..854d3c5 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -579,7 +579,7 @@ func (vp *Presentation) Clone() *Presentation {
 	if vp.CWT != nil {
 		clone.CWT = &VpCWT{
 			Raw:     slices.Clone(vp.CWT.Raw),
-			Message: vp.CWT.Message,
+			Message: cloneSign1Message(vp.CWT.Message),
 			VPMap:   cloneMap(vp.CWT.VPMap),
 		}
 	}
-- 
2.43.0


From 90877ae0e313a390ef43ef89147f817eb755c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:10 +0000
Subject: [PATCH 77/80] fix: refuse submissions that refer to a presentation
 that is not there

---
 presexch/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index df34af7..56ca2cc 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -174,6 +174,12 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		mappingsByVPIndex = descriptorsByPresentationIndex(descs)
 	}
 
+	for vpIdx := range mappingsByVPIndex {
+		if vpIdx < 0 || vpIdx >= len(vpList) {
+			return nil, fmt.Errorf("presentation submission refers to presentation %d of %d", vpIdx, len(vpList))
+		}
+	}
+
 	rawVPs := make([]interface{}, len(vpList))
 
 	for vpIdx, vp := range vpList {
-- 
2.43.0


From e958eea95dc94b9ca98dc700dd75a3ab4c912a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 78/80] fix: leave the id out of a typed entry that has none

---
 verifiable/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index ce787ef..cd7b4ea 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -169,7 +169,10 @@ func parseTypedIDObj(typedIDObj JSONObject) (TypedID, error) {
 func serializeTypedIDObj(typedID TypedID) JSONObject {
 	json := jsonutil.ShallowCopyObj(typedID.CustomFields)
 
-	json[jsonFldTypedIDID] = typedID.ID
+	if typedID.ID != "" {
+		json[jsonFldTypedIDID] = typedID.ID
+	}
+
 	json[jsonFldTypedIDType] = typedID.Type
 
 	return json
-- 
2.43.0


From c4e5ed983508baf08b0be123508a594c8a78dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 79/80] fix: refuse a CWT with an empty issuer when the issuer
 is to be checked

---
 cwt/cwt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cwt/cwt.go b/cwt/cwt.go
index e97f6eb..2d0e616 100644
--- a/cwt/cwt.go
+++ b/cwt/cwt.go
@@ -56,6 +56,10 @@ func ParseAndCheckProof(
 			return nil, nil, errors.New("check cwt failure: iss claim is not a string")
 		}
 
+		if issStr == "" {
+			return nil, nil, errors.New("check cwt failure: iss claim is empty")
+		}
+
 		expectedProofIssuer = &issStr
 	}
 
-- 
2.43.0


From a8e6d49f48b09de3e7bba5b8a7201ef3675a0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:33 +0000
Subject: [PATCH 80/80] fix: check the layout of a BBS+ signature proof before
 verifying it

---
 crypto-ext/verifiers/bbs/verifier.go | 34 ++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 61b0487..f1a02de 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -140,6 +140,40 @@ func checkRevealedCount(signatureProof []byte, messages int) error {
 		return fmt.Errorf("signature proof reveals %d messages, got %d", revealed, messages)
 	}
 
+	return checkProofLayout(signatureProof[payloadLen:], total-revealed)
+}
+
+// checkProofLayout checks that the points and responses of a signature proof that hides the given number of messages
+// have the lengths they must have: the BBS+ library reads beyond a proof whose parts do not fit together.
+func checkProofLayout(proofParts []byte, hidden int) error {
+	const (
+		pointLen    = 48
+		responseLen = 32
+		sizeLen     = 4
+		points      = 3
+		responses   = 2
+		firstLen    = pointLen + sizeLen + responses*responseLen
+	)
+
+	firstAt := points*pointLen + sizeLen
+	secondAt := firstAt + firstLen
+
+	if len(proofParts) != secondAt+pointLen+sizeLen+(responses+hidden)*responseLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	sizes := []struct{ at, want int }{
+		{at: firstAt - sizeLen, want: firstLen},
+		{at: firstAt + pointLen, want: responses},
+		{at: secondAt + pointLen, want: responses + hidden},
+	}
+
+	for _, size := range sizes {
+		if binary.BigEndian.Uint32(proofParts[size.at:]) != uint32(size.want) { //nolint:gosec
+			return errors.New("invalid size in signature proof")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


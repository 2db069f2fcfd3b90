From 9b9c65c1f1fcb477cbb2586c5114f9eb6a16abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 1/9] fix: Decrypt returns an error when the ciphertext is not
 whole blocks

It panicked in cipher.BlockMode.CryptBlocks on a ciphertext that a channel or disk had cut short or extended.
---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..a1f7b10 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -179,6 +179,9 @@ func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
 	if len(input) < 64 {
 		return nil, errors.New("input is to short for decryption")
 	}
+	if (len(input)-48)%aes.BlockSize != 0 {
+		return nil, errors.New("input is not a whole number of blocks")
+	}
 
 	salt := input[:ref.keyLength]
 	ivData := input[ref.keyLength:48]
-- 
2.43.0


From 83a452e2c3b19a6d42ee976b05d955982d727642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 2/9] fix: Signature.Bytes returns a buffer of its own

append(ref.R, ref.S...) wrote S into the capacity behind R and returned memory shared with R and with whatever
the caller keeps behind it, for instance the buffer given to NewSignatureFromBytes.
---
 signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..5b02a42 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,8 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	return append(append(b, ref.R...), ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 1d1bfdaf628963efdd8f7a3a1664399ee114de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 3/9] fix: IsCanonicalSignature compares the whole of S with
 the group order

Only the low 64 bits of S were looked at, so S plus a multiple of the group order was canonical and verified: anyone
could make a second accepted signature for a message. An issued S whose low 64 bits are zero or those of the order
was rejected.
---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index a1f7b10..6d84b7e 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -327,8 +327,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	sgnS := signature.GetS()
+	return sgnS.Sign() > 0 && sgnS.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 474360850c2b1c3068fe808f6355a6bb10687915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 4/9] fix: NewSignatureFromBigInt accepts every R and S that
 fit into 32 bytes

It refused the halves of nearly every real signature, whose low 64 bits exceed MaxInt32, and accepted negative
numbers and numbers of more than 256 bits whose low 64 bits are small.
---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index 5b02a42..ee63577 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From ae0059eff8f680cfbce3df5b97b7852c83f94abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 5/9] fix: NewPrivateKeyFromBigInt keeps leading zero bytes

A private key with leading zeros became shorter than 32 bytes, and with it a different key with another public key.
---
 key_model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..5342e1c 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,11 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From a2f833df6c02ec1f5d9458a39893af4392dabc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 6/9] fix: encrypting and decrypting without the private key
 return an error

GetSharedKey dereferenced the missing private key.
---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 6d84b7e..9d9ea57 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -119,6 +119,9 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
 
+	if privateKey == nil {
+		return nil, errors.New("cannot derive shared key without private key")
+	}
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3a2bec064cf03cfcad69ee713418822509afaf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 7/9] fix: MakeSignatureCanonical returns a signature of its
 own

The result shared its R with the argument, so overwriting one changed the other.
---
 ed25519_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 9d9ea57..925449e 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -344,7 +344,7 @@ func (ref *Ed25519DsaSigner) MakeSignatureCanonical(signature *Signature) (*Sign
 		return nil, err
 	}
 	sModQ := s.modQ()
-	return NewSignature(signature.R, sModQ.Raw)
+	return NewSignature(append([]byte(nil), signature.R...), sModQ.Raw)
 }
 
 // Ed25519KeyGenerator Implementation of the key generator for Ed25519.
-- 
2.43.0


From 92d031b8e9672ed378c80a44b0a29dacb6b060af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 8/9] fix: NewKeyPair without any key returns an error

It dereferenced the missing private key.
---
 key_pair.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key_pair.go b/key_pair.go
index 51abde1..a2d025c 100644
--- a/key_pair.go
+++ b/key_pair.go
@@ -26,6 +26,10 @@ func NewKeyPair(privateKey *PrivateKey, publicKey *PublicKey, engine CryptoEngin
 		engine = CryptoEngines.DefaultEngine
 	}
 
+	if privateKey == nil && publicKey == nil {
+		return nil, errors.New("a key pair needs a private or a public key")
+	}
+
 	if publicKey == nil {
 		publicKey = engine.CreateKeyGenerator().DerivePublicKey(privateKey)
 	} else if !engine.CreateKeyAnalyzer().IsKeyCompressed(publicKey) {
-- 
2.43.0


From fb191eb2b0ac63ee10324e6df970ee49fdd776e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 9/9] fix: Verify reports a signature whose halves are not 32
 bytes as invalid

It panicked on a Signature built by hand or decoded with a short S.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 925449e..6825b5c 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -275,6 +275,10 @@ func (ref *Ed25519DsaSigner) Sign(mess []byte) (*Signature, error) {
 // prevent  panic inside ed25519.Verify
 func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool) {
 
+	if signature == nil || len(signature.R) != 32 || len(signature.S) != 32 {
+		return false
+	}
+
 	if !ref.IsCanonicalSignature(signature) {
 		return false
 	}
-- 
2.43.0


From 6bec8b5fb679a1bf5e668cfb62cdfbd2cb9afe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 01/20] fix: truncate derived AES-192 keys to 24 bytes

---
 pkg/aes/aes_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..0ae5e80 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,6 +138,9 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
+	// AES-192 keys take the leftmost 24 bytes of two derived blocks
+	derivedKey = derivedKey[:derivedKeyLen]
+
 	return derivedKey, nil
 }
 
-- 
2.43.0


From ed6549a39a308116adb1523d8a326e4f999ae1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 02/20] fix: do not write the transaction counter into the
 caller's KSN

---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 0ae5e80..92ac6e6 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -190,7 +190,8 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		derivationID := initialKeyID[derivationKeyIdLength : derivationKeyIdLength+derivationIdLength : derivationKeyIdLength+derivationIdLength]
+		data.InitialKeyID = append(derivationID, tcBuf...)
 	}
 
 	return &data, nil
-- 
2.43.0


From 8d4bf797f56d945c8703793a82d4e580738a915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 03/20] fix: size initialization vectors alike for encryption
 and decryption, without writing past the caller's

---
 pkg/aes/aes.go | 6 ++++--
 pkg/des/des.go | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..eea4b92 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -327,7 +327,9 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		iv = make([]byte, aes.BlockSize)
 	}
 	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
+		iv = append(iv[:len(iv):len(iv)], make([]byte, aes.BlockSize-len(iv))...)
+	} else if len(iv) > aes.BlockSize {
+		iv = iv[:aes.BlockSize]
 	}
 
 	repeatCnt := len(plaintext) / aes.BlockSize
@@ -396,7 +398,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 	}
 
 	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
+		iv = append(iv[:len(iv):len(iv)], make([]byte, aes.BlockSize-len(iv))...)
 	} else if len(iv) > aes.BlockSize {
 		iv = iv[:aes.BlockSize]
 	}
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..370cbde 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -316,7 +316,9 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 		iv = make([]byte, desBlockLen)
 	}
 	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
+		iv = append(iv[:len(iv):len(iv)], make([]byte, desBlockLen-len(iv))...)
+	} else if len(iv) > desBlockLen {
+		iv = iv[:desBlockLen]
 	}
 
 	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
@@ -387,6 +389,9 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 		iv = make([]byte, desBlockLen)
 	}
 
+	if len(iv) < desBlockLen {
+		iv = append(iv[:len(iv):len(iv)], make([]byte, desBlockLen-len(iv))...)
+	}
 	if len(iv) > desBlockLen {
 		iv = iv[:desBlockLen]
 	}
-- 
2.43.0


From 3c47b29e66948e9018ba7fbc52a85674698713e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 04/20] fix: reject AES key serial numbers of a wrong length
 instead of panicking

---
 pkg/aes/aes.go          | 11 +++++++++++
 pkg/aes/aes_internal.go | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index eea4b92..14e1fda 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -45,6 +45,13 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	// the initial key ID alone, or the whole key serial number
+	if len(ksn) != initialKeyIdLength {
+		if err = checkKeySerialLength(len(ksn)); err != nil {
+			return nil, err
+		}
+	}
+
 	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
 	if err != nil {
 		return nil, err
@@ -71,6 +78,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if err = checkKeySerialLength(len(ksn)); err != nil {
+		return nil, err
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 92ac6e6..239601f 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/moov-io/dukpt/encryption"
 	"github.com/moov-io/dukpt/pkg"
@@ -14,6 +15,7 @@ const (
 	derivationIdLength       = 4
 	initialKeyIdLength       = derivationKeyIdLength + derivationIdLength
 	transactionCounterLength = 4
+	keySerialLength          = initialKeyIdLength + transactionCounterLength
 )
 
 // Key types and bits for AES
@@ -119,6 +121,13 @@ func getDerivationKeyType(keyLen int) (string, error) {
 	return "", errors.New("unsupported key length yet")
 }
 
+func checkKeySerialLength(ksnLen int) error {
+	if ksnLen != keySerialLength {
+		return fmt.Errorf("key serial number length must be %d bytes", keySerialLength)
+	}
+	return nil
+}
+
 func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error) {
 	var derivedKey []byte
 	derivedKeyLen := int(derivationData.Length / 8)
@@ -252,6 +261,10 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 }
 
 func generateDerivationKey(params derivationParams) ([]byte, error) {
+	if err := checkKeySerialLength(len(params.Ksn)); err != nil {
+		return nil, err
+	}
+
 	tc := pkg.GetAesTcFromKsn(params.Ksn)
 	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)
 	if err != nil {
-- 
2.43.0


From 106a504a30397afeb413726b5d350d210e16915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 05/20] fix: reject DES keys of a wrong length instead of
 padding or cutting them

---
 pkg/des/des.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 370cbde..6dda8ee 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -66,6 +66,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +199,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +278,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -344,6 +356,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
-- 
2.43.0


From 298d0b7c35f525cb9d291b79f5fbb5c780c53b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 06/20] fix: reject empty and overlong DES key serial numbers

---
 pkg/des/des.go          | 8 ++++++++
 pkg/des/des_internal.go | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 6dda8ee..528be7e 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -31,6 +31,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
 
+	if err := checkKeySerialLength(len(ksn)); err != nil {
+		return nil, err
+	}
+
 	ksnBytes := serializeKeySerialNumber(ksn)
 	removeTransactionCounter(ksnBytes)
 
@@ -70,6 +74,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
 	}
 
+	if err := checkKeySerialLength(len(ksn)); err != nil {
+		return nil, err
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..d9534f1 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -14,6 +14,13 @@ const (
 	desBlockLen  = 8
 )
 
+func checkKeySerialLength(ksnLen int) error {
+	if ksnLen == 0 || ksnLen > keySerialLen {
+		return fmt.Errorf("key serial number length must be 1 to %d bytes", keySerialLen)
+	}
+	return nil
+}
+
 func serializeKeySerialNumber(ksn []byte) []byte {
 	var ksnBytes []byte
 
-- 
2.43.0


From 33d410db68b34d0c360c6cc899a5c7d229286c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 07/20] fix: refuse the AES key serial number after the last
 valid counter

---
 pkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..a2c6c14 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -73,6 +73,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
+	if tc > tcMax {
+		return nil, errors.New("transaction already counter exhausted")
+	}
+
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-- 
2.43.0


From 44e624ad789b6ef0470e24604b495d0fdeaa0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 08/20] fix: next key serial number no longer overwrites the
 one passed in

---
 pkg/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/util.go b/pkg/util.go
index a2c6c14..e6a2990 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -80,7 +80,7 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
+	result := append(ksn[:8:8], tcMsb...)
 	return result, nil
 }
 
@@ -125,6 +125,8 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
+	// keep the caller's key serial number as it is
+	ksn = append([]byte(nil), ksn...)
 	{
 		length := len(ksn)
 		ksn[length-1] = byte(tc)
-- 
2.43.0


From 924be4414721051c2e9005eeceb8c1b292dc4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 09/20] fix: next key serial number refuses unusable lengths
 instead of panicking

---
 pkg/util.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index e6a2990..e43c06b 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -13,6 +13,12 @@ const (
 	MaxTypeHmac  = "hmac"
 )
 
+const (
+	aesKsnLen    = 12
+	desKsnLen    = 10
+	desKsnMinLen = 4
+)
+
 func HexDecode(data string) []byte {
 	if len(data) == 0 {
 		return nil
@@ -49,6 +55,10 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) != aesKsnLen {
+		return nil, errors.New("key serial number length must be 12 bytes")
+	}
+
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
@@ -96,6 +106,10 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) < desKsnMinLen || len(ksn) > desKsnLen {
+		return nil, errors.New("key serial number length must be 4 to 10 bytes")
+	}
+
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
-- 
2.43.0


From 7224becd67711cfe9ddc04bb32eee7861162e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 10/20] fix: decode decrypted PIN blocks in upper case hex, as
 VISA-3 needs

---
 pkg/des/des.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 528be7e..2b67760 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -184,7 +184,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 23e1804ae86c2a6c11345ee353b3c23b4fe1d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 11/20] fix: decrypt PINs of 10 to 12 digits in ISO-0 style
 blocks instead of panicking

---
 pkg/des/des.go          |  4 ++++
 pkg/des/des_internal.go | 48 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 2b67760..9200a61 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -184,6 +184,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
+	if version, ok := iso0PinblockVersion(strings.ToUpper(format)); ok {
+		return decodeIso0Pinblock(version, pinBlock, pan)
+	}
+
 	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index d9534f1..fdbafaf 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -3,8 +3,12 @@ package des
 import (
 	"bytes"
 	"crypto/des" //nolint:gosec
+	"encoding/hex"
+	"errors"
 	"fmt"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/dukpt/pkg"
 )
 
 const (
@@ -146,3 +150,47 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 
 	return cipher.Decrypt(ciphertext)
 }
+
+// iso0PinblockVersion returns the version nibble of the formats laid out like ISO-0
+func iso0PinblockVersion(format string) (byte, bool) {
+	switch format {
+	case "ISO-0", "ANSI", "ECI1", "VISA1", "VISA4":
+		return 0, true
+	case "ISO-3":
+		return 3, true
+	}
+	return 0, false
+}
+
+// decodeIso0Pinblock returns the PIN of a clear pin block laid out like ISO-0. The decoder of the pinblock package
+// reads the length nibble as a decimal digit and breaks on PINs of 10 to 12 digits.
+func decodeIso0Pinblock(version byte, pinblock []byte, pan string) (string, error) {
+	if len(pinblock) != desBlockLen {
+		return "", fmt.Errorf("pin block must be %d bytes", desBlockLen)
+	}
+	if len(pan) < 13 {
+		return "", errors.New("account length must be at least 13 digits")
+	}
+
+	// the last 12 digits of the account number excluding the check digit
+	panBlock, err := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
+	if err != nil {
+		return "", fmt.Errorf("decoding account: %w", err)
+	}
+
+	block := make([]byte, desBlockLen)
+	for index := range block {
+		block[index] = pinblock[index] ^ panBlock[index]
+	}
+
+	if block[0]>>4 != version {
+		return "", errors.New("format is different")
+	}
+
+	pinLength := int(block[0] & 0x0F)
+	if pinLength < 4 || pinLength > 12 {
+		return "", errors.New("pin length must be between 4 and 12 digits")
+	}
+
+	return pkg.HexEncode(block)[2 : 2+pinLength], nil
+}
-- 
2.43.0


From 235d75059bd9abce6c443630a1c5fa7e7e517d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 12/20] fix: decrypt routes decrypt instead of encrypting

---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From 8fbb561a9068f4eb64a95bdd417492c190b96723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 13/20] fix: answer failed requests with an error status and
 the reason

---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 pkg/server/routing.go  |  6 +++---
 pkg/server/service.go  | 12 ++++++------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..6964557 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -94,7 +94,7 @@ func (s *service) GetMachines() []*Machine {
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	var nextKsn []byte
@@ -134,7 +134,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -158,7 +158,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -182,7 +182,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -215,7 +215,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -235,7 +235,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From 48e840cdbe7badfdebcf98de078a61e8efa0ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 14/20] fix: keep stored machines private to the service and
 update them atomically

---
 pkg/server/service.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 6964557..52527cc 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -29,6 +30,8 @@ type Service interface {
 
 // service a concrete implementation of the service.
 type service struct {
+	// mtx guards the machines held by the store, clients only get copies of them
+	mtx   sync.RWMutex
 	store Repository
 }
 
@@ -70,7 +73,12 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	m.CurrentKSN = m.KeySerialNumber
+	stored := *m
+
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
@@ -79,23 +87,37 @@ func (s *service) CreateMachine(m *Machine) error {
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+	m := *f
+	return &m, nil
 }
 
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for i := range stored {
+		m := *stored[i]
+		machines = append(machines, &m)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+	stored, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
 	}
+	m := *stored
 
 	var nextKsn []byte
 	if m.Algorithm == pkg.AlgorithmAes {
@@ -124,10 +146,13 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		return nil, err
 	}
 
-	return m, err
+	*stored = m
+	return &m, err
 }
 
 func (s *service) DeleteMachine(ik string) error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	return s.store.DeleteMachine(ik)
 }
 
-- 
2.43.0


From 5a506101812b4421d1f93c7bef1330cc486bdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 15/20] fix: dukptcli accepts the documented key types

---
 cmd/dukptcli/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..99a793b 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
-- 
2.43.0


From f1e00607ab1d03f0573a6b70290fc9f30f9bd3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 16/20] fix: dukptcli generates hmacs

---
 cmd/dukptcli/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 99a793b..9dc9716 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
+	"github.com/moov-io/dukpt/pkg/aes"
 	"github.com/moov-io/dukpt/pkg/server"
 )
 
@@ -223,6 +224,18 @@ func main() {
 		params.MacType = *flagGenerateMacType
 		params.KSN = *flagGenerateMacKSN
 
+		// hmac takes the hmac key type of the same size
+		if params.Algorithm == pkg.AlgorithmAes && params.MacType == pkg.MaxTypeHmac {
+			switch params.AlgorithmKey {
+			case aes.KeyAES128Type:
+				params.AlgorithmKey = aes.KeyHMAC128Type
+			case aes.KeyAES192Type:
+				params.AlgorithmKey = aes.KeyHMAC192Type
+			case aes.KeyAES256Type:
+				params.AlgorithmKey = aes.KeyHMAC256Type
+			}
+		}
+
 		makeFuncCall(server.GenerateMac, params)
 		return
 	}
-- 
2.43.0


From 79c207c5b0063cfb662cbf7de5a07abb5e7270fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 17/20] fix: dukptcli refuses invalid actions for data
 operations too

---
 cmd/dukptcli/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 9dc9716..297fc45 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -254,6 +254,10 @@ func main() {
 			fmt.Printf("please select request data with en.data flag\n")
 			os.Exit(1)
 		}
+		if *flagEncryptAction != pkg.ActionRequest && *flagEncryptAction != pkg.ActionResponse {
+			fmt.Printf("please select valid action with en.action flag\n")
+			os.Exit(1)
+		}
 
 		if *flagAlgorithm == pkg.AlgorithmAes {
 			if *flagEncryptKSN == "" {
@@ -286,6 +290,10 @@ func main() {
 			fmt.Printf("please select encrypted text with de.data flag\n")
 			os.Exit(1)
 		}
+		if *flagDecryptAction != pkg.ActionRequest && *flagDecryptAction != pkg.ActionResponse {
+			fmt.Printf("please select valid action with de.action flag\n")
+			os.Exit(1)
+		}
 
 		if *flagAlgorithm == pkg.AlgorithmAes {
 			if *flagDecryptKSN == "" {
-- 
2.43.0


From dc2b2d7c29836c6e8e2f45ef3ac61a82c8e4613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 18/20] fix: refuse undecodable hexadecimal parameters instead
 of treating them as empty

---
 pkg/server/wrapper.go | 56 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 0039e42..015bd35 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -1,7 +1,10 @@
 package server
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
+
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
 	"github.com/moov-io/dukpt/pkg/des"
@@ -31,12 +34,26 @@ func (p UnifiedParams) ValidateAlgorithm() error {
 	return nil
 }
 
+// checkHex reports the first of the hexadecimal parameters that can't be decoded
+func checkHex(values ...string) error {
+	for _, value := range values {
+		if _, err := hex.DecodeString(value); err != nil {
+			return fmt.Errorf("invalid hexadecimal parameter: %w", err)
+		}
+	}
+	return nil
+}
+
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.BKD, params.KSN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
 
@@ -54,6 +71,10 @@ func TransactionKey(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.IK, params.KSN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	} else {
@@ -70,7 +91,14 @@ func EncryptPin(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = checkHex(params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.PIN, params.PAN, params.AlgorithmKey)
 	} else {
 		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)
@@ -86,7 +114,14 @@ func DecryptPin(params UnifiedParams) (string, error) {
 	var buf string
 	var err error
 
+	if err = checkHex(params.TK, params.PIN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = checkHex(params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.PIN), params.PAN, params.AlgorithmKey)
 	} else {
 		buf, err = des.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.PIN), params.PAN, params.Format)
@@ -102,7 +137,14 @@ func GenerateMac(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = checkHex(params.KSN); err != nil {
+			return "", err
+		}
 		if params.MacType != pkg.MaxTypeCmac && params.MacType != pkg.MaxTypeHmac {
 			return "", errors.New("invalid mac type")
 		}
@@ -125,7 +167,14 @@ func EncryptData(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK, params.IV); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = checkHex(params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.IV), params.Plaintext, params.AlgorithmKey, params.Action)
 	} else {
 		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
@@ -141,7 +190,14 @@ func DecryptData(params UnifiedParams) (string, error) {
 	var buf string
 	var err error
 
+	if err = checkHex(params.TK, params.Ciphertext, params.IV); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = checkHex(params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.AlgorithmKey, params.Action)
 	} else {
 		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.Action)
-- 
2.43.0


From f87e27b7a0ce132d60fa49817e4bc777d86ec373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 19/20] fix: install the signal handler before the server
 starts to serve

signal.Notify ran in a goroutine of its own, which may be scheduled only after
the server answers requests; a SIGINT or SIGTERM in between killed the process
and the requests in progress.
---
 cmd/server/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index f920498..abec173 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -56,9 +56,9 @@ func main() {
 
 	// Listen for application termination.
 	errs := make(chan error)
+	c := make(chan os.Signal, 1)
+	signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
 	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
 		errs <- fmt.Errorf("%s", <-c)
 	}()
 
-- 
2.43.0


From ffc6b05f28667d327a67be592e744ed7cd1cff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 20/20] fix: answer 404 for an unknown machine whatever its
 name says

---
 pkg/server/routing.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 777a868..23a884f 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -246,17 +246,14 @@ func codeFrom(err error) int {
 	if el, ok := err.(base.ErrorList); ok {
 		errString = el.Error()
 	}
-	switch {
-	case
-		strings.Contains(errString, errInvalidMachine.Error()):
-		return http.StatusBadRequest
-	}
-
+	// the text may quote the request, so the errors with a known cause come first
 	switch {
 	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
 	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
+	case strings.Contains(errString, errInvalidMachine.Error()):
+		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
 	}
-- 
2.43.0


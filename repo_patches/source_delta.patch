From 4bc384cfc348c4f1eb2686a9d9b67e25b79d3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 01/77] fix: AddressCheck must reject short texts instead of
 panicking

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..7e0946e 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -18,6 +18,10 @@ notice:
 */
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
+	// the prefixes inspected below take up to 12 characters; a NUL is never part of an address
+	for len(addr) < 12 {
+		addr += "\x00"
+	}
 	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
-- 
2.43.0


From 49f1cc36aa58cfff23c91b29f29ab9ea5697bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 02/77] fix: AddressDecode must report too short base58, ICX
 and hex texts as errors

---
 addressEncoder/addressEncoder.go | 5 ++++-
 addressEncoder/eip55/eip55.go    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..bfa0113 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -77,6 +77,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
@@ -284,7 +287,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if len(address) < 2 || address[0] != 'h' || address[1] != 'x' {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From e410fca122098a8a6cfc129078dba075d61a7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 03/77] fix: bech32 AddressDecode must reject other networks'
 prefixes, versions and short texts

---
 addressEncoder/addressEncoder.go | 4 ++++
 addressEncoder/bech32/bech32.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index bfa0113..7450493 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -264,6 +264,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != 20 && len(ret) != 32 {
 			return nil, ErrorInvalidHashLength
 		}
+		// human readable part, witness version and padding must be those of this network
+		if bech32.Encode(addresstype.ChecksumType, addresstype.Alphabet, ret, addresstype.Prefix) != address {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..7274575 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -386,6 +386,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	// six checksum symbols and at least one byte of data
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
-- 
2.43.0


From bae37bb53462f2553a46e9fccaf585c894c327c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 04/77] fix: bech32m AddressDecode must fail on a foreign
 prefix, checksum kind or length

---
 addressEncoder/addressEncoder.go  | 9 ++++++++-
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 7450493..85f8226 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -253,7 +253,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, err
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..5738a8f 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Not a bech32m address with prefix %s", prefix)
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 4ef1cdd4cf8b6ba1888e7adbb451d2a9839437d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 05/77] fix: cashaddr AddressDecode must check prefix, checksum
 and padding and return the type byte that was encoded

---
 addressEncoder/addressEncoder.go              |  4 ++++
 addressEncoder/base32PolyMod/base32PolyMod.go | 15 +++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 85f8226..d53f104 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -285,6 +285,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != addresstype.HashLen {
 			return nil, ErrorInvalidHashLength
 		}
+		// the padding bits must be zero
+		if base32PolyMod.Encode(addresstype.ChecksumType, addresstype.Alphabet, ret) != address {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "eip55" {
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..0a89a15 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -201,6 +201,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, ":")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	// eight checksum symbols and at least one byte of data
+	if valueSize < 10 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
@@ -210,10 +214,8 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if prefixStr != "bitcoincash" || !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
@@ -226,5 +228,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+	// the version byte holds the type (see Encode), bit 7 and the size bits of a 160 bit hash are zero
+	if bytePayload[0]&0x87 != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	bytePayload[0] >>= 3
 	return bytePayload, nil
 }
-- 
2.43.0


From 7ca14d40c52bee45b167b8a15f8a23573b012ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:06 +0000
Subject: [PATCH 06/77] fix: XMR, EOS and AE AddressDecode must reject
 overflowing blocks and wrong payload lengths

---
 addressEncoder/addressEncoder.go | 4 ++++
 addressEncoder/aeternity.go      | 3 +++
 addressEncoder/eos.go            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index d53f104..f816da8 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -362,6 +362,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 			fmt.Printf("recover data failed!!!")
 			return nil, err
 		}
+		// a block whose value does not fit its bytes is not an encoding of anything
+		if AddressEncode(ret, addresstype) != address {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 
diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..afbad08 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -22,6 +22,9 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7a40963 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -32,6 +32,9 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
-- 
2.43.0


From 4e2cded3c50599bd38647ece1328a9270812f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 07/77] fix: AddressCheck must accept Nebulas contract
 addresses that start with n1

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index 7e0946e..d9a231e 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -408,6 +408,10 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	case "NAS":
 		if addr[0] == 'n' && addr[1] == '1' {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				// contract addresses start with n1 or n2
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0


From e1af4d44b1a992601c9a02841449c077d739e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:04 +0000
Subject: [PATCH 08/77] fix: child private keys with several leading zero bytes
 must keep 32 bytes

---
 owkeychain/extendedkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..dc81daf 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -119,10 +119,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 		priChild = inverse(priChild)
 	} else {
@@ -138,10 +136,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 	}
 	return priChild, nil
-- 
2.43.0


From c853e68d92add25cd8109a2a381bcae542557917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:05 +0000
Subject: [PATCH 09/77] fix: public derivation beyond depth 255 must fail
 instead of wrapping the depth

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index dc81daf..d2e8da5 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -248,6 +248,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
+		//越过最大深度限制
+		if k.depth == maxUint8 {
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		i := getI(k.key, k.chainCode, serializes, typeChoose)
 		childKey, err := getPubChildViaPubParent(i[:32], k.key, typeChoose)
 		if err != nil {
-- 
2.43.0


From c60b334515cd864e9fb3756275a9a538892bf80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:05 +0000
Subject: [PATCH 10/77] fix: derivation path numbers out of range must be
 refused, not truncated

---
 owkeychain/hdkey.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..8e246b8 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From de5beebf0ec92d841d714ccdc811e3f7f3008444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:16 +0000
Subject: [PATCH 11/77] fix: OWDecode must refuse texts of wrong length or
 prefix instead of crashing

---
 owkeychain/owencode.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..2d5c6bd 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
@@ -84,6 +87,7 @@ func (k *ExtendedKey) OWEncode() string {
 
 func OWDecode(data string) (*ExtendedKey, error) {
 	privateFlag := true
+	blsPrefix := false
 	decodeBytes := []byte{}
 	var err error
 	if strings.Index(data, "owpub") == 0 {
@@ -102,24 +106,38 @@ func OWDecode(data string) (*ExtendedKey, error) {
 		decodeBytes, err = Base58checkDecode(data, owpubPrefix)
 		if err != nil {
 			decodeBytes, err = Base58checkDecode(data, owpubPrefix_BLS)
+			blsPrefix = true
 			if err != nil {
 				return nil, err
 			}
 		}
 	}
+	if len(decodeBytes) < 45+32 {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
 	serializes := bytesToUInt32(decodeBytes[9:13])
 	chainCode := decodeBytes[13:45]
 	if curveType == owcrypt.ECC_CURVE_ED25519 || curveType == owcrypt.ECC_CURVE_X25519 || curveType == owcrypt.ECC_CURVE_CURVE25519_SHA256 || privateFlag {
+		if blsPrefix {
+			return nil, ErrInvalidAddress
+		}
 		if decodeBytes[45] != 0 {
 			return nil, ErrInvalidAddress
 		}
 		key := decodeBytes[46:]
+		if len(key) != 32 {
+			return nil, ErrInvalidAddress
+		}
 
 		return NewExtendedKey(key, chainCode, parentFP, depth, serializes, privateFlag, curveType), nil
 	}
 	key := decodeBytes[45:]
+	isBLS := curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
+	if isBLS != blsPrefix || (isBLS && len(key) != 48) || (!isBLS && len(key) != 33) {
+		return nil, ErrInvalidAddress
+	}
 	return NewExtendedKey(key, chainCode, parentFP, depth, serializes, privateFlag, curveType), nil
 }
-- 
2.43.0


From f98eb8afa97128a1a209c312192b83df981928da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:01 +0000
Subject: [PATCH 12/77] fix: DecodeCheck must refuse texts too short to be an
 address instead of crashing

---
 aliencoinTransaction/base58.go      | 2 +-
 bitcoincashTransaction/base58.go    | 2 +-
 bitcoinsvTransaction/base58.go      | 2 +-
 btcLikeTxDriver/base58.go           | 2 +-
 btcTransaction/base58.go            | 2 +-
 cxcTransaction/base58.go            | 2 +-
 elastosTransaction/base58.go        | 2 +-
 fiiiTransaction/base58.go           | 2 +-
 hcTransaction/base58.go             | 2 +-
 hypercashTransaction/base58.go      | 2 +-
 omniTransaction/base58.go           | 2 +-
 ontologyTransaction/base58.go       | 2 +-
 vergeTransaction/base58.go          | 2 +-
 virtualeconomyTransaction/base58.go | 2 +-
 vollarTransaction/base58.go         | 2 +-
 waykichainTransaction/base58.go     | 2 +-
 zencashTransaction/base58.go        | 2 +-
 17 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..939d6a1 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) (byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) != 25 {
 		return 0, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..7fef2a1 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..f3121f3 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..f94aa1d 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) (byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) != 25 {
 		return 0, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..b432dbe 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..046bce0 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..b664773 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..f5fa557 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < len(prefix)+4 {
 		return nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..db810db 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..8013fe3 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..613c56d 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..b79df31 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) (byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) != 25 {
 		return 0, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..40ba491 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) (byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) != 25 {
 		return 0, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..8f7b10c 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) != 26 {
 		return nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..b04d40b 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..83f1c3e 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..85a1b17 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil {
+	if err != nil || len(ret) < 24 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
-- 
2.43.0


From 1d4ed736741f984829af480f981a7923c2031a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:37 +0000
Subject: [PATCH 13/77] fix: bech32 outputs must be checked against the network
 and not fall through to base58

---
 btcTransaction/bech32.go     |  2 +-
 btcTransaction/txOut.go      |  8 ++++++--
 cxcTransaction/bech32.go     |  2 +-
 cxcTransaction/txAsset.go    | 10 ++++++++--
 cxcTransaction/txOut.go      | 10 ++++++++--
 hcTransaction/bech32.go      |  2 +-
 hcTransaction/txOut.go       | 10 ++++++++--
 hcTransaction/txProfile.go   |  4 ++--
 omniTransaction/bech32.go    |  2 +-
 omniTransaction/txOut.go     | 10 ++++++++--
 zencashTransaction/bech32.go |  2 +-
 zencashTransaction/txOut.go  |  8 ++++++--
 12 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..78ea624 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..6cb4ae2 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,9 +27,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != v.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..2e00400 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..bd89712 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,9 +30,13 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(to.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(to.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != to.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
@@ -46,6 +50,8 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 			redeem = append(redeem, payload...)
 			redeem = append(redeem, OpDrop)
 			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..c8ef511 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,9 +25,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != v.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
@@ -35,6 +39,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..3afb33d 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..3313c45 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,9 +25,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != v.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
@@ -35,6 +39,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/txProfile.go b/hcTransaction/txProfile.go
index 0a656a9..03c2d5f 100644
--- a/hcTransaction/txProfile.go
+++ b/hcTransaction/txProfile.go
@@ -6,8 +6,8 @@ type AddressPrefix struct {
 	Bech32Prefix string
 }
 var (
-	HCMainnetAddressPrefix = AddressPrefix{[]byte{0x09, 0x7f}, []byte{0x7f}, "Hs"}
-	HCTestnetAddressPrefix = AddressPrefix{[]byte{0x0f, 0x21}, []byte{0x21}, "Ts"}
+	HCMainnetAddressPrefix = AddressPrefix{[]byte{0x09, 0x7f}, []byte{0x7f}, ""}
+	HCTestnetAddressPrefix = AddressPrefix{[]byte{0x0f, 0x21}, []byte{0x21}, ""}
 
 )
 
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..ac9397e 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..e6d5fc7 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,9 +25,13 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != v.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
@@ -35,6 +39,8 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..56c6790 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..cb1685d 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,9 +42,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
+				return nil, errors.New("Invalid bech32 type address!")
+			}
+			// only version 0 programs with clean padding are supported
+			if Bech32Encode(prefixStr, BTCBech32Alphabet, redeem) != v.Address {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
-- 
2.43.0


From 3d897b7578970d78ccd80b9466cae5277cece287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:08 +0000
Subject: [PATCH 14/77] fix: transactions with more than 252 inputs or outputs
 must be refused, not truncated

---
 bitcoincashTransaction/txStruct.go | 9 +++++++--
 bitcoinsvTransaction/txStruct.go   | 9 +++++++--
 btcTransaction/txStruct.go         | 9 +++++++--
 cxcTransaction/txStruct.go         | 9 +++++++--
 hcTransaction/txStruct.go          | 9 +++++++--
 omniTransaction/txStruct.go        | 9 +++++++--
 zencashTransaction/txStruct.go     | 9 +++++++--
 7 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..4d0533f 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -63,6 +63,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -148,7 +153,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -245,7 +250,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..a506379 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -63,6 +63,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -148,7 +153,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -245,7 +250,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..1addb03 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -224,7 +229,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..46be699 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -73,6 +73,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -158,7 +163,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -255,7 +260,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..248ac5e 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -224,7 +229,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..dc13be0 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -224,7 +229,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..e674dc1 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -42,6 +42,11 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// the counts are written as one byte
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	if t.Version == nil || len(t.Version) != 4 {
 		return nil, errors.New("Invalid transaction version data!")
 	}
@@ -127,7 +132,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins == 0 {
+	if numOfVins == 0 || numOfVins >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -224,7 +229,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts >= 0xFD {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-- 
2.43.0


From f4c4e4cfe0bcc61aeba70496522e626fd9dfc510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:08 +0000
Subject: [PATCH 15/77] fix: redeem scripts longer than 252 bytes need a three
 byte length

---
 bitcoincashTransaction/txHash.go     | 4 ++--
 bitcoincashTransaction/txIn.go       | 2 +-
 bitcoincashTransaction/txMultiSig.go | 7 +++++++
 bitcoincashTransaction/txStruct.go   | 9 ++++++++-
 bitcoincashTransaction/txUtils.go    | 8 ++++++++
 bitcoinsvTransaction/txHash.go       | 4 ++--
 bitcoinsvTransaction/txIn.go         | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 7 +++++++
 bitcoinsvTransaction/txStruct.go     | 9 ++++++++-
 bitcoinsvTransaction/txUtils.go      | 8 ++++++++
 btcTransaction/txHash.go             | 4 ++--
 btcTransaction/txIn.go               | 2 +-
 btcTransaction/txMultiSig.go         | 7 +++++++
 btcTransaction/txStruct.go           | 9 ++++++++-
 btcTransaction/txUtils.go            | 8 ++++++++
 cxcTransaction/txHash.go             | 4 ++--
 cxcTransaction/txIn.go               | 2 +-
 cxcTransaction/txMultiSig.go         | 7 +++++++
 cxcTransaction/txStruct.go           | 9 ++++++++-
 cxcTransaction/txUtils.go            | 8 ++++++++
 hcTransaction/txHash.go              | 4 ++--
 hcTransaction/txIn.go                | 2 +-
 hcTransaction/txMultiSig.go          | 7 +++++++
 hcTransaction/txStruct.go            | 9 ++++++++-
 hcTransaction/txUtils.go             | 8 ++++++++
 omniTransaction/txHash.go            | 4 ++--
 omniTransaction/txIn.go              | 2 +-
 omniTransaction/txMultiSig.go        | 7 +++++++
 omniTransaction/txStruct.go          | 9 ++++++++-
 omniTransaction/txUtils.go           | 8 ++++++++
 zencashTransaction/txHash.go         | 4 ++--
 zencashTransaction/txIn.go           | 2 +-
 zencashTransaction/txMultiSig.go     | 7 +++++++
 zencashTransaction/txStruct.go       | 9 ++++++++-
 zencashTransaction/txUtils.go        | 8 ++++++++
 35 files changed, 182 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..91e9a8f 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -322,7 +322,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..4fcde96 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..5fe5a48 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4d0533f..bab1e71 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -380,13 +380,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..c59ce0d 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..4f8853a 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -323,7 +323,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..a9ea60c 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..61b0989 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index a506379..4071389 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -380,13 +380,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..d7a27e1 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..592ad43 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..0d6dfe8 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..f8b4b65 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 1addb03..3097593 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -359,13 +359,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..11588b3 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..cc21a6a 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..a3994fa 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..2d64f49 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 46be699..33372a5 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -390,13 +390,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..20362df 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..b82caad 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..1206c91 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..bac4afa 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 248ac5e..1ea48dc 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -359,13 +359,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..b3c4d2f 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..ade497d 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..a41c365 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..75c9458 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -176,6 +176,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index dc13be0..e3bc788 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -359,13 +359,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..bbebedd 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -65,6 +65,14 @@ func bigEndianBytesToUint16(data []byte) uint16 {
 	return binary.BigEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..1b708ef 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -327,7 +327,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenToBytes(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..2182b40 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..3b4485f 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -177,6 +177,13 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
+	} else if script[index] == 0xFD {
+		index++
+		if index+2 > limit {
+			return nil, nil, errors.New("Invalid multisig script data!")
+		}
+		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
+		index += 2
 	} else {
 		redeemLen = int(script[index])
 		index++
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index e674dc1..610a1b8 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -359,13 +359,20 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 						index++
 					}
+				} else if txBytes[index] == 0xFD {
+					if index+3 > limit {
+						return nil, errors.New("Invalid transaction data!")
+					}
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+3]...)
+					index += 3
 				} else {
 					redeemLen = int(txBytes[index])
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
 					index++
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..71112f4 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenToBytes encodes the length of a script
+func scriptLenToBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
-- 
2.43.0


From 0a9c21941fe797fb56cf23f41a4d3c0f027f6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 16/77] fix: the witness of a multisig input must count the
 signatures it carries

---
 bitcoincashTransaction/txIn.go     | 18 +++++++++++++++++-
 bitcoincashTransaction/txStruct.go |  7 ++++---
 bitcoinsvTransaction/txIn.go       | 18 +++++++++++++++++-
 bitcoinsvTransaction/txStruct.go   |  7 ++++---
 btcTransaction/txIn.go             | 18 +++++++++++++++++-
 btcTransaction/txStruct.go         |  7 ++++---
 cxcTransaction/txIn.go             | 18 +++++++++++++++++-
 cxcTransaction/txStruct.go         |  7 ++++---
 hcTransaction/txIn.go              | 18 +++++++++++++++++-
 hcTransaction/txStruct.go          |  7 ++++---
 omniTransaction/txIn.go            | 18 +++++++++++++++++-
 omniTransaction/txStruct.go        |  7 ++++---
 zencashTransaction/txIn.go         | 18 +++++++++++++++++-
 zencashTransaction/txStruct.go     |  7 ++++---
 14 files changed, 147 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 4fcde96..4a316f1 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index bab1e71..ea8b909 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -311,9 +311,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -401,6 +399,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index a9ea60c..5037460 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4071389..c82d6cc 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -311,9 +311,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -401,6 +399,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index 0d6dfe8..7edee01 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 3097593..d6fa259 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -290,9 +290,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -380,6 +378,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index a3994fa..daa822e 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 33372a5..de347a2 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -321,9 +321,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -411,6 +409,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 1206c91..7d83a77 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 1ea48dc..381d636 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -290,9 +290,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -380,6 +378,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index a41c365..7e22fdb 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index e3bc788..8b60406 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -290,9 +290,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -380,6 +378,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 2182b40..4e94f34 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -115,7 +115,11 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		items, err := multiWitnessItems(in.scriptMulti)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
@@ -123,6 +127,18 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 	return ret, nil
 }
 
+//multiWitnessItems counts the witness items of a multisig input: the dummy, the signatures and the redeem script
+func multiWitnessItems(scriptMulti []byte) (byte, error) {
+	items := byte(2)
+	for index := 1; index+1 < len(scriptMulti) && scriptMulti[index+1] == 0x30; items++ {
+		index += int(scriptMulti[index]) + 1
+	}
+	if items < 3 || items > 18 {
+		return 0, errors.New("Invalid multisig witness data!")
+	}
+	return items, nil
+}
+
 func (in *TxIn) setEmpty() {
 	in.inType = TypeEmpty
 	in.scriptPub = nil
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 610a1b8..ec9c143 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -290,9 +290,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := txBytes[index]
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -380,6 +378,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				}
 				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
 				index += redeemLen
+				if count, err := multiWitnessItems(rawTx.Vins[i].scriptMulti); err != nil || count != items {
+					return nil, errors.New("Invalid transaction data!")
+				}
 			}
 		}
 	}
-- 
2.43.0


From 14817b90c84822638e666982aa2ac57465932c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 17/77] fix: encoding a signature with a zero half must not
 crash

---
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..f555689 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..d52ad0f 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..8c9faf9 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..d039e74 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..28bb1e8 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -58,7 +58,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -69,7 +69,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..7f5cb00 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..fbe23cb 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 6ffce03dc765c568809141bc25a53486f5092673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 18/77] fix: inserting signatures must report bad unlock data
 as an error, not as an empty transaction

---
 bitcoincashTransaction/transaction.go | 4 ++--
 bitcoinsvTransaction/transaction.go   | 4 ++--
 btcTransaction/transaction.go         | 4 ++--
 cxcTransaction/transaction.go         | 4 ++--
 hcTransaction/transaction.go          | 4 ++--
 omniTransaction/transaction.go        | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..df43957 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..62d066d 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..191aa5d 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..bf1492a 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -116,7 +116,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +126,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..f4eb6d3 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..3db0b8e 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -94,7 +94,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +104,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
-- 
2.43.0


From 9e71690de001162712bfcb9532c66eae54ee925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 19/77] fix: inserting signatures must check that they fit the
 inputs instead of crashing

---
 bitcoincashTransaction/transaction.go | 7 +++++++
 bitcoincashTransaction/txHash.go      | 2 +-
 bitcoinsvTransaction/transaction.go   | 7 +++++++
 bitcoinsvTransaction/txHash.go        | 2 +-
 btcTransaction/transaction.go         | 7 +++++++
 btcTransaction/txHash.go              | 2 +-
 cxcTransaction/transaction.go         | 7 +++++++
 cxcTransaction/txHash.go              | 2 +-
 hcTransaction/transaction.go          | 7 +++++++
 hcTransaction/txHash.go               | 2 +-
 omniTransaction/transaction.go        | 7 +++++++
 omniTransaction/txHash.go             | 2 +-
 zencashTransaction/transaction.go     | 4 ++++
 zencashTransaction/txHash.go          | 2 +-
 14 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index df43957..dcf9407 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -109,6 +109,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -123,6 +127,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 91e9a8f..a6f7370 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,7 +276,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 62d066d..9fa2879 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -109,6 +109,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -123,6 +127,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 4f8853a..e6e0c3d 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,7 +277,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 191aa5d..9f681d9 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -95,6 +95,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -109,6 +113,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 592ad43..6a5367c 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,7 +280,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index bf1492a..bedf6c0 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -114,6 +114,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -128,6 +132,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index cc21a6a..f4dab99 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,7 +279,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index f4eb6d3..fb2415b 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -95,6 +95,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
 		return "", err
@@ -109,6 +113,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index b82caad..d320e7b 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,7 +280,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 3db0b8e..c6597fb 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -92,6 +92,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
 		return "", err
@@ -106,6 +110,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		if err != nil {
 			return "", err
 		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data and the unlock data are not match!")
+		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
 			emptyTrans.Vins[i].scriptPub = nil
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index ade497d..c9e756c 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,7 +279,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..c6572f3 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -94,6 +94,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit := false
 
 	if segwit && !SegwitON {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 1b708ef..831aebc 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -281,7 +281,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
-- 
2.43.0


From ea09dc82bd0bd6c6587540ea245cf60821f207f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:36 +0000
Subject: [PATCH 20/77] fix: decoding a truncated transaction must return an
 error instead of crashing

---
 bitcoincashTransaction/txMultiSig.go | 6 +++---
 bitcoincashTransaction/txStruct.go   | 7 +++++--
 bitcoinsvTransaction/txMultiSig.go   | 6 +++---
 bitcoinsvTransaction/txStruct.go     | 7 +++++--
 btcTransaction/txMultiSig.go         | 6 +++---
 btcTransaction/txStruct.go           | 7 +++++--
 cxcTransaction/txMultiSig.go         | 6 +++---
 cxcTransaction/txStruct.go           | 7 +++++--
 hcTransaction/txMultiSig.go          | 6 +++---
 hcTransaction/txStruct.go            | 7 +++++--
 omniTransaction/txMultiSig.go        | 6 +++---
 omniTransaction/txStruct.go          | 7 +++++--
 zencashTransaction/txMultiSig.go     | 6 +++---
 zencashTransaction/txStruct.go       | 7 +++++--
 14 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 5fe5a48..5a39fec 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index ea8b909..5a659c8 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -223,7 +223,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -239,6 +239,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -328,7 +331,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 61b0989..6b8cf26 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index c82d6cc..2c95514 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -223,7 +223,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -239,6 +239,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -328,7 +331,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index f8b4b65..ce44162 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index d6fa259..9f3fae6 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -202,7 +202,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -218,6 +218,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -307,7 +310,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 2d64f49..f46ff94 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index de347a2..059f2a3 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -233,7 +233,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -249,6 +249,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -338,7 +341,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index bac4afa..cf57dee 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 381d636..554cd7e 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -202,7 +202,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -218,6 +218,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -307,7 +310,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 75c9458..2b6f516 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -134,7 +134,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -198,7 +198,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -216,7 +216,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8b60406..3495b0f 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -202,7 +202,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -218,6 +218,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -307,7 +310,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 3b4485f..9d2e2e9 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -199,7 +199,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -217,7 +217,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index ec9c143..21bf543 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -202,7 +202,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -218,6 +218,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -307,7 +310,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
-- 
2.43.0


From eef7564838fa9420527207fe648d41e6898d1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:36 +0000
Subject: [PATCH 21/77] fix: a short multisig script must not be decoded as a
 P2PKH script

---
 bitcoincashTransaction/txStruct.go | 2 +-
 bitcoinsvTransaction/txStruct.go   | 2 +-
 btcTransaction/txStruct.go         | 2 +-
 cxcTransaction/txStruct.go         | 2 +-
 hcTransaction/txStruct.go          | 2 +-
 omniTransaction/txStruct.go        | 2 +-
 zencashTransaction/txStruct.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 5a659c8..d305331 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -206,7 +206,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 2c95514..6a50d4b 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -206,7 +206,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 9f3fae6..2b2afa1 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -185,7 +185,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 059f2a3..b7e6908 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -216,7 +216,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 554cd7e..797808a 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -185,7 +185,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 3495b0f..fbf13e3 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -185,7 +185,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 21bf543..f02307e 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -185,7 +185,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From a7a2a16d0ce19d637498f73407c411c417ce76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 22/77] fix: verifying a transaction that does not fit the
 unlock data must answer false instead of crashing

---
 bitcoincashTransaction/transaction.go | 21 +++++++++++++++++----
 bitcoinsvTransaction/transaction.go   | 21 +++++++++++++++++----
 btcTransaction/transaction.go         | 21 +++++++++++++++++----
 cxcTransaction/transaction.go         | 21 +++++++++++++++++----
 hcTransaction/transaction.go          | 21 +++++++++++++++++----
 omniTransaction/transaction.go        | 21 +++++++++++++++++----
 zencashTransaction/transaction.go     | 20 ++++++++++++++++----
 7 files changed, 118 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index dcf9407..ee95b25 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -209,6 +209,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -222,6 +226,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -232,16 +239,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 9fa2879..e6ecbe6 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -209,6 +209,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -222,6 +226,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -232,16 +239,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 9f681d9..31019ab 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -195,6 +195,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -208,6 +212,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -218,16 +225,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index bedf6c0..419cae4 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -214,6 +214,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -227,6 +231,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -237,16 +244,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index fb2415b..75cdbf0 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -195,6 +195,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -208,6 +212,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -218,16 +225,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c6597fb..bf416fa 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -192,6 +192,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -205,6 +209,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -215,16 +222,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index c6572f3..eeb8a15 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -147,6 +147,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		if signedTrans.Vins[i].inType != TypeP2PKH {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
 			if err != nil {
@@ -160,6 +163,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
@@ -170,16 +176,22 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 {
+				return false
+			}
+			if owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
+						continue
+					}
+					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
-- 
2.43.0


From ac4d1c3d126d212ab85b63b25e32603b2d5faa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 23/77] fix: verifying a multisig input must not count one
 key's signature twice

---
 bitcoincashTransaction/transaction.go | 5 ++++-
 bitcoinsvTransaction/transaction.go   | 5 ++++-
 btcTransaction/transaction.go         | 5 ++++-
 cxcTransaction/transaction.go         | 5 ++++-
 hcTransaction/transaction.go          | 5 ++++-
 omniTransaction/transaction.go        | 5 ++++-
 zencashTransaction/transaction.go     | 5 ++++-
 7 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index ee95b25..7a34324 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -248,14 +248,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index e6ecbe6..b7c553b 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -248,14 +248,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 31019ab..afd5977 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -234,14 +234,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 419cae4..059b677 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -253,14 +253,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 75cdbf0..5094f11 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -234,14 +234,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index bf416fa..361a5a8 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -231,14 +231,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index eeb8a15..22f027e 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -185,14 +185,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
 					if owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						// every key can be used once
+						next = j + 1
 						break
 					}
 				}
-- 
2.43.0


From 193af72c8d5474427d170a8bb1fe6926b1542b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 24/77] fix: verifying a transaction must bind the scripts it
 carries to the unlock data

---
 bitcoincashTransaction/transaction.go | 30 +++++++++++++++++++++++----
 bitcoinsvTransaction/transaction.go   | 30 +++++++++++++++++++++++----
 btcTransaction/transaction.go         | 30 +++++++++++++++++++++++----
 cxcTransaction/transaction.go         | 30 +++++++++++++++++++++++----
 hcTransaction/transaction.go          | 30 +++++++++++++++++++++++----
 omniTransaction/transaction.go        | 30 +++++++++++++++++++++++----
 zencashTransaction/transaction.go     | 30 +++++++++++++++++++++++----
 7 files changed, 182 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 7a34324..fe6421d 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -3,6 +3,7 @@ package bitcoincashTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -219,8 +220,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -230,12 +233,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -251,7 +271,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index b7c553b..e992aef 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -3,6 +3,7 @@ package bitcoinsvTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -219,8 +220,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -230,12 +233,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -251,7 +271,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index afd5977..486095a 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -3,6 +3,7 @@ package btcTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -205,8 +206,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -216,12 +219,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -237,7 +257,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 059b677..7c00503 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -3,6 +3,7 @@ package cxcTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 	"github.com/blocktree/go-owcrypt"
 )
 
@@ -224,8 +225,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -235,12 +238,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -256,7 +276,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 5094f11..0ca869f 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -3,6 +3,7 @@ package hcTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -205,8 +206,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -216,12 +219,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -237,7 +257,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 361a5a8..669cad9 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -3,6 +3,7 @@ package omniTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -202,8 +203,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -213,12 +216,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -234,7 +254,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 22f027e..d7f9bc2 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -3,6 +3,7 @@ package zencashTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 	"github.com/blocktree/go-owcrypt"
 )
 
@@ -156,8 +157,10 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 
+			if sigType != unlockData[i].SigType {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
 			if err != nil {
@@ -167,12 +170,29 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+				if sigpub[j].Signature == nil {
+					continue
+				}
+				if sigType[j] != unlockData[i].SigType {
+					return false
+				}
+				txHash[i].Multi[j].SigPub.Signature = sigpub[j].Signature
+				txHash[i].Multi[j].SigPub.Pubkey, _ = hex.DecodeString(txHash[i].Multi[j].Pubkey)
 			}
 		}
 	}
 
+	// the scripts must be exactly what the unlock data and the signatures make them
+	emptyTrans = signedTrans.cloneEmpty()
+	emptyBytes, err := emptyTrans.encodeToBytes(false)
+	if err != nil {
+		return false
+	}
+	rebuilt, err := InsertSignatureIntoEmptyTransaction(hex.EncodeToString(emptyBytes), txHash, unlockData, SegwitON)
+	if err != nil || rebuilt != strings.ToLower(txHex) {
+		return false
+	}
+
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
@@ -188,7 +208,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
 				for j := next; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					// the keys are those of the redeem script that was spent
+					key, _ := hex.DecodeString(t.Multi[j].Pubkey)
+					pubkey := owcrypt.PointDecompress(key, owcrypt.ECC_CURVE_SECP256K1)
 					if len(pubkey) != 65 || len(t.Multi[i].SigPub.Signature) != 64 {
 						continue
 					}
-- 
2.43.0


From e97944536ca5aa2db7521459ba007f4338d7db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:03 +0000
Subject: [PATCH 25/77] fix: verifying a transaction must check that the
 signing key is the one the output pays to

---
 bitcoincashTransaction/transaction.go | 19 ++++++++++++++++++-
 bitcoinsvTransaction/transaction.go   | 19 ++++++++++++++++++-
 btcTransaction/transaction.go         | 19 ++++++++++++++++++-
 cxcTransaction/transaction.go         | 19 ++++++++++++++++++-
 hcTransaction/transaction.go          | 19 ++++++++++++++++++-
 omniTransaction/transaction.go        | 19 ++++++++++++++++++-
 6 files changed, 108 insertions(+), 6 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index fe6421d..85d4781 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -210,7 +210,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -223,6 +223,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -292,3 +295,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index e992aef..99cb245 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -210,7 +210,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -223,6 +223,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -292,3 +295,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 486095a..cef7003 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -196,7 +196,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -209,6 +209,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -278,3 +281,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 7c00503..0f55e49 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -215,7 +215,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -228,6 +228,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -297,3 +300,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 0ca869f..d39c6d8 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -196,7 +196,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -209,6 +209,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -278,3 +281,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 669cad9..c8b585e 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -193,7 +193,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		_, _, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil || signedTrans.Vins[i].inType != int(inType) {
 			return false
 		}
@@ -206,6 +206,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if sigType != unlockData[i].SigType {
 				return false
 			}
+			if !isPubkeyOfLock(sigpub.Pubkey, lock, redeem, inType) {
+				return false
+			}
 			txHash[i].Normal.SigPub = *sigpub
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
@@ -275,3 +278,17 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 	return true
 }
+
+//isPubkeyOfLock tells whether the lock script (and redeem script) pays to the public key
+func isPubkeyOfLock(pubkey, lock, redeem []byte, inType byte) bool {
+	hash := owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		return byteArrayCompare(hash, lock[3:23])
+	case TypeBech32:
+		return byteArrayCompare(hash, lock[2:22])
+	case TypeP2WPKH:
+		return byteArrayCompare(hash, redeem[2:]) && byteArrayCompare(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	}
+	return false
+}
-- 
2.43.0


From 9266beaa60021e488d282f73df46e49795590fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 26/77] fix: GetTxID must not reverse the transaction id in
 place

---
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index c59ce0d..273a3a3 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index d7a27e1..c600575 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 11588b3..13dc485 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 20362df..293c4a5 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index b3c4d2f..f714df4 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index bbebedd..8aa0d4f 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 71112f4..2a01d0b 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From 61747aee8e666a62fc7502c69bc097e9bb89cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 27/77] fix: Bitcoin Cash and SV multisig inputs must sign the
 fork id digest

---
 bitcoincashTransaction/txHash.go | 16 ++++------------
 bitcoinsvTransaction/txHash.go   | 16 ++++------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index a6f7370..c2f0229 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -215,18 +215,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			// the fork id hash type always signs the BIP143 digest
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
 
 		} else {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index e6e0c3d..9383a1e 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -216,18 +216,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			// the fork id hash type always signs the BIP143 digest
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
 
 		} else {
-- 
2.43.0


From 995cc7e5dfd2e8f22aabc860003c655ccd0532bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 28/77] fix: multisig addresses must carry the script hash
 prefix

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 5a39fec..f2777f7 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 6b8cf26..ad049a4 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index ce44162..00333e9 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index f46ff94..1f47bc4 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index cf57dee..15da3d8 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 2b6f516..6e17d03 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 9d2e2e9..67b2907 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From a28a6d7b0f9163ac252b4ed6cbbaa5fa5a1531af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 29/77] fix: the number of multisig keys must not be truncated
 to a byte

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index f2777f7..f325b37 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index ad049a4..0fd2f41 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 00333e9..723eb14 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 1f47bc4..21ff689 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 15da3d8..61187d6 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 6e17d03..5cd8d77 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 67b2907..6c9a7ba 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
-- 
2.43.0


From 6fbdae4d24c567c9c464718725da28f0f1b719a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 30/77] fix: omni payloads that are invalid or too long for one
 push must not be sent malformed

---
 bitcoincashTransaction/txOmni.go | 12 +++++++++++-
 bitcoinsvTransaction/txOmni.go   | 12 +++++++++++-
 omniTransaction/txOmni.go        | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..780c0eb 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,8 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) < 0xFA {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
 
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..f063016 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,8 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) < 0xFA {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
 
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..bc473a6 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,7 +52,17 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) < 0xFA {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
-- 
2.43.0


From 96dd11858016f12ca16d7a4bdce2d0c89a9d3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 31/77] fix: an asset id of the wrong length must be refused

---
 cxcTransaction/txAsset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index bd89712..f390cee 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -9,7 +9,7 @@ func getTransferPayload(to AssetTransfer) []byte {
 	ret := []byte(AssetTransferSign)
 
 	sellfirstBytes, err := reverseHexToBytes(to.FirstSellTxID)
-	if err != nil {
+	if err != nil || len(sellfirstBytes) != 16 {
 		return nil
 	}
 
-- 
2.43.0


From a35984512bd0bbc31aa2f8f79778634bab3d97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 32/77] fix: Zen lock scripts and block hashes of the wrong
 length must be refused

---
 zencashTransaction/txHash.go | 5 ++++-
 zencashTransaction/txOut.go  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 831aebc..4259b18 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 || len(lockBytes) >= 0xFD {
+			return nil, errors.New("Invalid lockScript data!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index cb1685d..1941d14 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -24,7 +24,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 32 {
 		return nil, errors.New("Invalid block hash!")
 	}
 	tmp := make([]byte, 8)
-- 
2.43.0


From 129d67e2fecff32596f4f9882e9e1d2c7b7553a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:25 +0000
Subject: [PATCH 33/77] fix: an address without a version byte must not be
 taken for a script hash address

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index 7fef2a1..20e568e 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil || len(ret) < 24 {
+	if err != nil || len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index f3121f3..1cfd912 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil || len(ret) < 24 {
+	if err != nil || len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index b432dbe..23bfd60 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -152,7 +152,7 @@ func Decode(input string, alphabet *Alphabet) ([]byte, error) {
 //return prefix + hash + error
 func DecodeCheck(address string) ([]byte, []byte, error) {
 	ret, err := Decode(address, BitcoinAlphabet)
-	if err != nil || len(ret) < 24 {
+	if err != nil || len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
-- 
2.43.0


From 0668e7d48c0e3c27741bb31e1642a9fd43379ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:36 +0000
Subject: [PATCH 34/77] fix: the block height of a Zen output must not be
 encoded as a negative number

---
 zencashTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 1941d14..1f2b21a 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	if len(blockHeightBytes) > 0 && blockHeightBytes[len(blockHeightBytes)-1]&0x80 == 0x80 {
+		// script numbers are signed
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From 8e8e710b99d508f48fd153e50f2d1ce2b54aa73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:22 +0000
Subject: [PATCH 35/77] fix: verifying a multisig input with two or more unused
 keys must not crash

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index f325b37..9d81c29 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 0fd2f41..5dea70c 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 723eb14..e4f23c4 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 21ff689..4806df4 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 61187d6..6790c96 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 5cd8d77..f178382 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -209,7 +209,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 6c9a7ba..c68dff7 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -210,7 +210,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
-- 
2.43.0


From a7eccb376f770589bd89dc2937f97f33daa2ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 36/77] fix: MOAC numbers below 128 must be encoded as the
 single byte RLP defines

---
 moacchainTransaction/txStruct.go | 93 ++++----------------------------
 moacchainTransaction/txUtils.go  |  3 ++
 2 files changed, 14 insertions(+), 82 deletions(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..5b0329c 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -81,91 +81,20 @@ func decodeEmpty(txBytes []byte) (*TxStruct, error) {
 	limit := len(txBytes)
 	index := 0
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
+	for _, field := range []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount, &tx.Payload, &tx.ShardingFlag, &tx.Via} {
+		if index+1 > limit {
 			return nil, errors.New("Invalid!")
 		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+		size := 1
+		if txBytes[index] > 0x80 {
+			size += int(txBytes[index]) - 0x80
+		}
+		if index+size > limit {
+			return nil, errors.New("Invalid!")
+		}
+		*field = txBytes[index : index+size]
+		index += size
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
 	if index+1 > limit {
 		return nil, errors.New("Invalid!")
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..c2673e8 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -34,6 +34,9 @@ func getUint64Bytes(data uint64) []byte {
 
 func getBigIntBytes(data *big.Int) []byte {
 	ret := data.Bytes()
+	if len(ret) == 1 && ret[0] < 0x80 {
+		return ret
+	}
 
 	return append(getLengthBytes(len(ret)), ret...)
 }
-- 
2.43.0


From dee8971df773576912334093bb7d30d3f963ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 37/77] fix: MOAC transactions of 56 bytes or more must be
 possible to combine

---
 moacchainTransaction/transaction.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..18d139c 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -49,15 +49,14 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	headLen := 1
+	if len(txBytes) > 0 && txBytes[0] > LargeTag {
+		headLen += int(txBytes[0] - LargeTag)
 	}
-	tx, err := decodeEmpty(txBytes[1:])
+	if len(txBytes) < headLen || hex.EncodeToString(getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-headLen))) != hex.EncodeToString(txBytes[:headLen]) {
+		return false, ""
+	}
+	tx, err := decodeEmpty(txBytes[headLen:])
 	if err != nil {
 		return false, ""
 	}
-- 
2.43.0


From a8bcb57fed0d9783d9cde55765da34a9362eb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 38/77] fix: a MOAC signature for one network must not be
 released for the other

---
 moacchainTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 18d139c..388d1c3 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -60,6 +60,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil {
 		return false, ""
 	}
+	if isTestNet != (tx.ChainID[0] == ChainIDTestnet) || (!isTestNet && tx.ChainID[0] != ChainIDMainnet) {
+		return false, ""
+	}
 	tx.addSig(sig, isTestNet)
 
 	return true, "0x" + hex.EncodeToString(tx.ToBytes())
-- 
2.43.0


From 4b0fe10120e967a87d20dae7d2acfdded599ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 39/77] fix: MOAC requests with a short address or an unusable
 number must be refused

---
 moacchainTransaction/txStruct.go | 5 +++++
 moacchainTransaction/txUtils.go  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 5b0329c..f36ef29 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -22,6 +22,11 @@ type TxStruct struct {
 }
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
+	for _, number := range []*big.Int{amount, gasLimit, gasPrice} {
+		if number == nil || number.Sign() < 0 || number.BitLen() > 256 {
+			return nil, errors.New("Invalid amount, gas limit or gas price!")
+		}
+	}
 	var tx TxStruct
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index c2673e8..4464d95 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -109,7 +109,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From 766723d19c1635509df55aa5a92f9bf52681c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 40/77] fix: Ripple memos longer than 192 bytes need a longer
 length prefix

---
 rippleTransaction/txProfile.go |  1 +
 rippleTransaction/txStruct.go  |  3 +++
 rippleTransaction/txUtils.go   | 11 ++++++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/txProfile.go b/rippleTransaction/txProfile.go
index 5d9bdf6..543607a 100644
--- a/rippleTransaction/txProfile.go
+++ b/rippleTransaction/txProfile.go
@@ -5,6 +5,7 @@ const (
 	PAYMENT              uint16 = 0x00
 	HP_TRANSACTION_SIGN  uint32 = 0x53545800
 	TxCanonicalSignature uint32 = 0x80000000
+	maxMemoLength               = 918744 // the longest field the length prefix can express
 )
 
 const (
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..eeb5be6 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -172,6 +172,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		return nil, err
 	}
 
+	if len(memoType) > maxMemoLength || len(memoData) > maxMemoLength || len(memoFormat) > maxMemoLength {
+		return nil, errors.New("Memo is too long!")
+	}
 	txStruct.Memos = getMemosBytes(memoType, memoData, memoFormat)
 
 	return &txStruct, nil
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..513ea12 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -114,5 +114,14 @@ func serilizeS(sig []byte) []byte {
 }
 
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	size := len(memo)
+	if size <= 192 {
+		return append([]byte{byte(size)}, []byte(memo)...)
+	}
+	if size <= 12480 {
+		size -= 193
+		return append([]byte{byte(193 + size>>8), byte(size)}, []byte(memo)...)
+	}
+	size -= 12481
+	return append([]byte{byte(241 + size>>16), byte(size >> 8), byte(size)}, []byte(memo)...)
 }
-- 
2.43.0


From b8eb1840ea9ab3a383f7f978e2460fcd0ee80e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 41/77] fix: Ripple tags and amounts that do not fit must be
 refused, not truncated

---
 rippleTransaction/txStruct.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index eeb5be6..b60c227 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -140,6 +140,13 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		err      error
 	)
 
+	if destinationTag > 0xFFFFFFFF {
+		return nil, errors.New("Destination tag is too big!")
+	}
+	if amount >= 1<<62 || fee >= 1<<62 {
+		return nil, errors.New("Amount or fee is too big!")
+	}
+
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
-- 
2.43.0


From 045dffd0b5f06af1135fb50d4f73a5cd6da96ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:00 +0000
Subject: [PATCH 42/77] fix: a Ripple signature must belong to the public key
 the transaction names

---
 rippleTransaction/transaction.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..83639c0 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,7 +41,15 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	parts := strings.Split(emptyTrans, "s")
+	if len(parts) != 2 || !strings.HasSuffix(strings.ToLower(parts[0]), "7321"+strings.ToLower(publicKey)) {
+		return false, ""
+	}
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) != 65 {
+		return false, ""
+	}
+	pubkeyBytes = pubkeyBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-- 
2.43.0


From dc14184dc657fa19620a0e3044eabc3dda35883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 43/77] fix: a witness whose public key item is not 33 bytes
 long must not be decoded

---
 bitcoincashTransaction/txStruct.go | 3 +++
 bitcoinsvTransaction/txStruct.go   | 3 +++
 btcTransaction/txStruct.go         | 3 +++
 cxcTransaction/txStruct.go         | 3 +++
 hcTransaction/txStruct.go          | 3 +++
 omniTransaction/txStruct.go        | 3 +++
 zencashTransaction/txStruct.go     | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index d305331..b0e7a22 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -307,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 6a50d4b..7689036 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -307,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 2b2afa1..29c92f7 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -286,6 +286,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b7e6908..5e76e57 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -317,6 +317,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 797808a..9f7cda6 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -286,6 +286,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index fbf13e3..7f58b29 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -286,6 +286,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index f02307e..f769506 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -286,6 +286,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+sigLen+35 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
+				if txBytes[index+sigLen+1] != 0x21 {
+					return nil, errors.New("Only compressed pubkey is supported!")
+				}
 				rawTx.Vins[i].scriptSig = txBytes[index : index+sigLen+35]
 
 				index += sigLen + 35
-- 
2.43.0


From 9e8b0b8db1debb99e226c64d5aa167c515dde740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:40 +0000
Subject: [PATCH 44/77] fix: a one-byte r or s of a MOAC signature must be
 encoded as the number it is

---
 moacchainTransaction/txStruct.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index f36ef29..ef842fe 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -116,27 +116,8 @@ func decodeEmpty(txBytes []byte) (*TxStruct, error) {
 }
 
 func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
-	r := sig[:32]
-	for _, data := range r {
-		if data == 0x00 {
-			r = r[1:]
-		} else {
-			break
-		}
-	}
-	tx.R = getLengthBytes(len(r))
-	tx.R = append(tx.R, r...)
-
-	s := sig[32:64]
-	for _, data := range s {
-		if data == 0x00 {
-			s = s[1:]
-		} else {
-			break
-		}
-	}
-	tx.S = getLengthBytes(len(s))
-	tx.S = append(tx.S, s...)
+	tx.R = getBigIntBytes(new(big.Int).SetBytes(sig[:32]))
+	tx.S = getBigIntBytes(new(big.Int).SetBytes(sig[32:64]))
 
 	if isTestNet {
 		tx.ChainID = getUint64Bytes(uint64(sig[64] + 35 + ChainIDTestnet*2))
-- 
2.43.0


From d83cec926b01f87129ef5b031fad3d34444965e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:44 +0000
Subject: [PATCH 45/77] fix: a MOAC signature with a zero r or s must be
 refused, not crash

---
 moacchainTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 388d1c3..68e44a1 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -42,6 +42,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
 		return false, ""
 	}
+	if new(big.Int).SetBytes(sig[:32]).Sign() == 0 || new(big.Int).SetBytes(sig[32:64]).Sign() == 0 {
+		return false, ""
+	}
 	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
 	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
 		return false, ""
-- 
2.43.0


From 8cbc770090319905bf7aab96ab5f6b8375cfec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 46/77] fix: Polkadot numbers of 2^63 or more and zero must be
 compact-encoded correctly

---
 polkadotTransaction/codec.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..4f6e5e6 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -3,7 +3,7 @@ package polkadotTransaction
 import (
 	"encoding/binary"
 	"encoding/hex"
-	"math/big"
+	"math/bits"
 )
 
 func CompactLength(data uint32) int {
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return bits.LeadingZeros64(data)
 }
 
 func getPrefix(data uint64) string {
@@ -103,6 +103,9 @@ func uint64ToLittleEndianArrayWithoutLeadingZeros(data uint64) string {
 }
 
 func Encode(data uint64) string {
+	if data == 0 {
+		return "00"
+	}
 	if data > fourByteModeMaxValue {
 		return getPrefix(data) + uint64ToLittleEndianArrayWithoutLeadingZeros(data)
 	}
-- 
2.43.0


From ecf9e2797b2528376876212693b75a8dcf2e61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 47/77] fix: Polkadot requests with a malformed sender key or
 transfer code must be refused

---
 polkadotTransaction/txMethod.go |  5 ++++-
 polkadotTransaction/txStruct.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..cec5e51 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -25,6 +25,12 @@ type TxStruct struct {
 
 func (tx TxStruct) NewTxPayLoad(transfer_code string) (*TxPayLoad, error) {
 	var tp TxPayLoad
+
+	sender, err := hex.DecodeString(tx.SenderPubkey)
+	if err != nil || len(sender) != 32 {
+		return nil, errors.New("invalid sender public key")
+	}
+
 	method, err := NewMethodTransfer(tx.RecipientPubkey, tx.Amount)
 	if err != nil {
 		return nil, err
@@ -115,7 +121,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +130,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 472e2b1eadc4f7640e1fb03e1d1d0b74e16ee73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 48/77] fix: a V Systems attachment must be refused, not
 dropped together with its length

---
 virtualeconomyTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..7048ca1 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -28,6 +28,9 @@ type SignaturePubkey struct {
 // 创建空交易单
 // only transfer for now
 func CreateEmptyTransaction(ts TxStruct) (string, error) {
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
+	}
 	timestamp := make([]byte, 8)
 	amount := make([]byte, 8)
 	fee := make([]byte, 8)
-- 
2.43.0


From 862af182bea01b84a78258aba83b153dc25593f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 49/77] fix: BigBang requests whose anchor, address, inputs or
 data do not fit must be refused

---
 bigbangTransaction/address.go   | 2 +-
 bigbangTransaction/txProfile.go | 1 +
 bigbangTransaction/txStruct.go  | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..64603d8 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) != 57 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
diff --git a/bigbangTransaction/txProfile.go b/bigbangTransaction/txProfile.go
index be7d65b..49a1a54 100644
--- a/bigbangTransaction/txProfile.go
+++ b/bigbangTransaction/txProfile.go
@@ -4,6 +4,7 @@ const (
 	DefaultVersion = uint16(1)
 	TxType_Token   = uint16(0)
 	DefaultLockUntil = uint32(0)
+	maxCount = 0xFC // the largest count and data length a single byte can express
 )
 
 const (
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..8cd491c 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,7 +28,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
@@ -36,6 +36,9 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	if inputs == nil || len(inputs) == 0 {
 		return nil, errors.New("Miss input!")
 	}
+	if len(inputs) > maxCount || len(data) > maxCount {
+		return nil, errors.New("Too many inputs or too much data!")
+	}
 
 	for _, in := range inputs {
 		input, err := NewTxIn(in.TxID, in.Vout)
-- 
2.43.0


From 6dbf55d608ccaa49223ac85d2299ca99c595aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 50/77] fix: Filenet totals that overflow must be refused and
 the caller's outputs left alone

---
 filenetTransaction/txStruct.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..a18dec3 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,7 +45,8 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
-	sort.Sort(outs)
+	outs = append(Vouts{}, outs...)
+	sort.Stable(outs)
 
 	totleAmount := uint64(0)
 	for _, out := range outs {
@@ -56,6 +57,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Invalid amount!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
-- 
2.43.0


From d3c082b86a974fa94549dc08b3aa8d5dd8f57aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:25 +0000
Subject: [PATCH 51/77] fix: a malformed Filenet transaction or public key must
 be refused, not crash

---
 filenetTransaction/transaction.go | 6 +++++-
 filenetTransaction/txStruct.go    | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..b9c58f8 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,7 +66,11 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return "", false
+	}
+	pubBytes = pubBytes[1:]
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index a18dec3..e10be9b 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -162,6 +162,9 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount > uint64(limit-index)/28 {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 6fb0ba3bad60b5c700f1c8a955ea05046947573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 52/77] fix: Cosmos and Evaio fees without coins and zero
 amounts must not crash or distort the document

NewTxStruct crashed on a fee without coins, dropped every fee coin when the
first was zero and altered the caller's fee; a zero amount in a message became
a coin without denomination; signing with an invalid key crashed.
---
 cosmosTransaction/transaction.go | 10 ++++++++--
 cosmosTransaction/txStruct.go    | 10 +++++++---
 evaioTransaction/transaction.go  | 10 ++++++++--
 evaioTransaction/txStruct.go     | 10 +++++++---
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..33376cf 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -11,6 +11,13 @@ import (
 )
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
+	for _, message := range tx.Message {
+		for _, coin := range message.Value.Amount {
+			if coin.Amount == "" {
+				return "", "", errors.New("Invalid amount!")
+			}
+		}
+	}
 
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
@@ -56,11 +63,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..a85450f 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	// zero coins are not part of a fee
+	feeAmount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			feeAmount = append(feeAmount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           FeeStruct{Amount: feeAmount, Gas: fee.Gas},
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..4a87184 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -11,6 +11,13 @@ import (
 )
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
+	for _, message := range tx.Message {
+		for _, coin := range message.Value.Amount {
+			if coin.Amount == "" {
+				return "", "", errors.New("Invalid amount!")
+			}
+		}
+	}
 
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
@@ -56,11 +63,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..0c919f9 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	// zero coins are not part of a fee
+	feeAmount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			feeAmount = append(feeAmount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           FeeStruct{Amount: feeAmount, Gas: fee.Gas},
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
-- 
2.43.0


From 16546797b2f972c67482a25857bf4a1882dcb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 53/77] fix: Binance Chain documents that cannot be combined
 faithfully must be refused

The sign document states amounts as double-precision JSON numbers, so a large
amount was altered in the combined transaction; another chain id or further
messages in the document were ignored; a malformed public key or a document
without messages crashed.
---
 binancechainTransaction/msg-send.go    |  4 ++--
 binancechainTransaction/transaction.go | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index ad8ca71..d5db86e 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -13,7 +13,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(from) != 20 {
 		return nil, errors.New("Invalid address!")
 	}
 
@@ -22,7 +22,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(to) != 20 {
 		return nil, errors.New("Invalid address!")
 	}
 
diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..08ebe19 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -7,6 +7,7 @@ import (
 	"github.com/binance-chain/go-sdk/types/msg"
 	"github.com/binance-chain/go-sdk/types/tx"
 	"github.com/blocktree/go-owcrypt"
+	"strconv"
 )
 
 func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumber, sequence, source int64, memo string) (string, string, error) {
@@ -15,6 +16,11 @@ func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumbe
 		return "", "", err
 	}
 
+	// the document states amounts as JSON numbers of double precision
+	if strconv.FormatFloat(float64(amount), 'f', -1, 64) != strconv.FormatInt(amount, 10) {
+		return "", "", errors.New("Invalid amount!")
+	}
+
 	signMsg := tx.StdSignMsg{
 		ChainID:ChainID,
 		AccountNumber:accountNumber,
@@ -55,6 +61,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 	if err != nil {
 		return false, ""
 	}
+	if stdSignDoc.ChainID != ChainID || len(stdSignDoc.Msgs) != 1 {
+		return false, ""
+	}
 	signMsg.Memo = stdSignDoc.Memo
 	err = json.Unmarshal(stdSignDoc.Msgs[0], &sendMsg)
 	if err != nil {
@@ -83,7 +92,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubUncompressedBytes) != 65 {
+		return false, ""
+	}
+	pubUncompressedBytes = pubUncompressedBytes[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
-- 
2.43.0


From 8975e332eaac15b2a18bf34b179491c8fe4562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:13 +0000
Subject: [PATCH 54/77] fix: Aliencoin signatures with short components must be
 strictly DER-encoded

---
 aliencoinTransaction/txSigPub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..64a3389 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -43,7 +43,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +54,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 5598adc262ca8493a87742b50abf0b35177492bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:13 +0000
Subject: [PATCH 55/77] fix: Verge and Aliencoin requests with bad ids, locks
 or counts must be refused

---
 aliencoinTransaction/txIn.go     |  4 ++--
 aliencoinTransaction/txStruct.go | 19 +++++++++++++++++--
 vergeTransaction/txIn.go         |  4 ++--
 vergeTransaction/txStruct.go     | 28 +++++++++++++++++++++++-----
 4 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..4fd5abf 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > maxByteLength {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..fc6aa9c 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -19,8 +19,14 @@ type TxStruct struct {
 	LockTime []byte
 }
 
+// maxByteLength is the largest count or length that is written as a single byte
+const maxByteLength = 0xfc
+
 func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion}
+	if len(vins) > maxByteLength || len(vouts) > maxByteLength {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
@@ -116,6 +122,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	numVins := txBytes[index]
 	index++
+	if numVins > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVins); i++ {
 		in := TxIn{}
@@ -150,6 +159,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	numVouts := txBytes[index]
 	index++
+	if numVouts > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVouts); i++ {
 		out := TxOut{}
@@ -163,7 +175,7 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		lockScriptLen := int(txBytes[index])
-		if index+1+lockScriptLen > limit {
+		if lockScriptLen > maxByteLength || index+1+lockScriptLen > limit {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		out.LockScript = txBytes[index : index+1+lockScriptLen]
@@ -186,7 +198,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > maxByteLength {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..81851d0 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > maxByteLength {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..4a34b62 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -3,6 +3,7 @@ package vergeTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"math"
 	"strings"
 	"time"
 
@@ -20,13 +21,21 @@ type TxStruct struct {
 	LockTime     []byte
 }
 
+// maxByteLength is the largest count or length that is written as a single byte
+const maxByteLength = 0xfc
+
 func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion}
+	if len(vins) > maxByteLength || len(vouts) > maxByteLength {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 
-	timeuntil := uint32(time.Now().Unix())
-	timeuntil += timeInterval
+	timeuntil := uint64(time.Now().Unix()) + uint64(timeInterval)
+	if timeuntil > math.MaxUint32 {
+		return nil, errors.New("time interval too long!")
+	}
 
-	ret.TimeInterval = uint32ToLittleEndianBytes(timeuntil)
+	ret.TimeInterval = uint32ToLittleEndianBytes(uint32(timeuntil))
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
 	for _, in := range vins {
@@ -129,6 +138,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	numVins := txBytes[index]
 	index++
+	if numVins > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVins); i++ {
 		in := TxIn{}
@@ -163,6 +175,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	numVouts := txBytes[index]
 	index++
+	if numVouts > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVouts); i++ {
 		out := TxOut{}
@@ -176,7 +191,7 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		lockScriptLen := int(txBytes[index])
-		if index+1+lockScriptLen > limit {
+		if lockScriptLen > maxByteLength || index+1+lockScriptLen > limit {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		out.LockScript = txBytes[index : index+1+lockScriptLen]
@@ -199,7 +214,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > maxByteLength {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
-- 
2.43.0


From 12118889a832280059db990d8360373912f00841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:13 +0000
Subject: [PATCH 56/77] fix: a malformed public key must be refused by Verge
 and Aliencoin, not crash

---
 aliencoinTransaction/transaction.go | 9 ++++++++-
 vergeTransaction/transaction.go     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..10d0979 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,7 +64,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPubs[index].Pubkey) != 33 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..30c4811 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,7 +64,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPubs[index].Pubkey) != 33 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
-- 
2.43.0


From 4174a795a84613c1dcc266d50604dcce8e3d7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:44 +0000
Subject: [PATCH 57/77] fix: Vollar must not release a transaction that does
 not verify, nor crash on malformed keys

---
 vollarTransaction/transaction.go | 17 +++++++++++------
 vollarTransaction/txIn.go        |  4 ++--
 vollarTransaction/txStruct.go    | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..b9cd237 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -61,7 +61,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	}
 	for index := 0; index < len(lockScripts); index++ {
 		ls, err := hex.DecodeString(lockScripts[index])
-		if err != nil {
+		if err != nil || len(ls) > maxByteLength {
 			return false, "", errors.New("invalid lock script!")
 		}
 		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
@@ -72,13 +72,18 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		return false, "", err
 	}
 
-	pass := true
-
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPub[i].Pubkey) != 33 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
-			pass = false
+			return false, "", errors.New("verify transaction failed!")
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
 	}
@@ -87,5 +92,5 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	for index := 0; index < 82+len(trans.Vin); index++ {
 		txBytes = append(txBytes, byte(0))
 	}
-	return pass, hex.EncodeToString(txBytes), nil
+	return true, hex.EncodeToString(txBytes), nil
 }
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..5026665 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > maxByteLength {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..ea574f0 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -1,6 +1,7 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"strings"
@@ -19,8 +20,14 @@ type TxStruct struct {
 	Vout    []TxOut
 }
 
+// maxByteLength is the largest count or length that is written as a single byte
+const maxByteLength = 0xfc
+
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
+	if len(vins) > maxByteLength || len(vouts) > maxByteLength {
+		return nil, errors.New("too many inputs or outputs!")
+	}
 
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
@@ -151,12 +158,19 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	txStruct.Flag = txBytes[index]
 	index++
+	// the signatures do not cover the version and the flag
+	if !bytes.Equal(txStruct.Version, DefaultTxVersion) || txStruct.Flag != DefaultTxFlag {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	if index+1 > limit {
 		return nil, nil, errors.New("invalid transaction data!")
 	}
 	numVins := txBytes[index]
 	index++
+	if numVins > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVins); i++ {
 		in := TxIn{}
@@ -191,6 +205,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 	numVouts := txBytes[index]
 	index++
+	if numVouts > maxByteLength {
+		return nil, nil, errors.New("invalid transaction data!")
+	}
 
 	for i := 0; i < int(numVouts); i++ {
 		out := TxOut{}
@@ -208,7 +225,7 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		lockScriptLen := int(txBytes[index])
-		if index+1+lockScriptLen > limit {
+		if lockScriptLen > maxByteLength || index+1+lockScriptLen > limit {
 			return nil, nil, errors.New("invalid transaction data!")
 		}
 		out.LockScript = txBytes[index : index+1+lockScriptLen]
-- 
2.43.0


From 914eeeca8a30dbb809e54f62ecaaadbed1236ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 58/77] fix: HyperCash must refuse what it cannot represent and
 not crash on malformed data

---
 hypercashTransaction/TxStruct.go    |  9 +++++++++
 hypercashTransaction/transaction.go | 13 ++++++++++---
 hypercashTransaction/txIn.go        |  5 ++++-
 hypercashTransaction/txOut.go       |  3 +++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/hypercashTransaction/TxStruct.go b/hypercashTransaction/TxStruct.go
index 6e7a25b..dfcde17 100644
--- a/hypercashTransaction/TxStruct.go
+++ b/hypercashTransaction/TxStruct.go
@@ -136,6 +136,15 @@ func GetVinList(emptyTrans string) ([]Vin, error) {
 	}
 	count := int(tx[index])
 	index ++
+	if count == 0xfd {
+		if index + 2 > limit {
+			return nil, errors.New("Invalid transaction hex!")
+		}
+		count = int(littleEndianBytesToUint16(tx[index:index+2]))
+		index += 2
+	} else if count > 0xfd {
+		return nil, errors.New("Invalid transaction hex!")
+	}
 	if count <= 0 || count != len(trans) - 1{
 		return nil, errors.New("Invalid transaction hex!")
 	}
diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..ce66a8d 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -137,7 +137,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 	}
 
 	txBytes, err := hex.DecodeString(transData[0])
-	if err != nil {
+	if err != nil || len(txBytes) < 4 {
 		return false, ""
 	}
 
@@ -184,14 +184,21 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if sigPub[i] == nil || len(sigPub[i].PublicKey) != 33 {
+			return false, ""
+		}
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, ""
+		}
+		pubkey = pubkey[1:]
 
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
 		}
 
 		sigScript, err := hex.DecodeString(sepStr[1])
-		if err != nil {
+		if err != nil || len(sigScript) != 16 {
 			return false, ""
 		}
 
diff --git a/hypercashTransaction/txIn.go b/hypercashTransaction/txIn.go
index c50d1fe..46c46dd 100644
--- a/hypercashTransaction/txIn.go
+++ b/hypercashTransaction/txIn.go
@@ -25,6 +25,9 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 
 	txIn.Vout = uint32ToLittleEndianBytes(in.Vout)
 
+	if in.Tree != TxTreeRegular {
+		return nil, errors.New("Only the regular transaction tree is supported!")
+	}
 	txIn.TxTree = TxTreeRegular
 
 	txIn.Sequence = []byte{0xff, 0xff, 0xff, 0xff}
@@ -34,7 +37,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	txIn.SignatureScript = append(txIn.SignatureScript, uint32ToLittleEndianBytes(in.BlockIndex)...)
 
 	lockscript,err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockscript) > 0xfc {
 		return nil, errors.New("Invalid lock script!")
 	}
 
diff --git a/hypercashTransaction/txOut.go b/hypercashTransaction/txOut.go
index c9a0596..7fcaaa7 100644
--- a/hypercashTransaction/txOut.go
+++ b/hypercashTransaction/txOut.go
@@ -12,6 +12,9 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 	var txOut TxOut
 
 	txOut.Amount = uint64ToLittleEndianBytes(out.Amount)
+	if out.PkScriptVersion != DefaultPkScriptVersion {
+		return nil, errors.New("Unsupported script version!")
+	}
 	txOut.PkScriptVersion = uint16ToLittleEndianBytes(DefaultPkScriptVersion)
 
 	pkPrefix, pkhaash, err := DecodeCheck(out.Address)
-- 
2.43.0


From 8682e15bb7fdcbca9655227178b4a06168fe0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 59/77] fix: Mateverse must verify signatures against the
 transaction it combines

---
 mateverseTransaction/transaction.go | 27 ++++++++++++++++++++++++++-
 mateverseTransaction/txIn.go        | 13 ++++++++++++-
 mateverseTransaction/txSigPub.go    |  6 +++++-
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..bfba902 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcrypt"
+	"math"
 )
 
 func GetInputsFromEmptyRawTransaction(emptyTrans string) ([]*TxInput, error){
@@ -25,10 +26,18 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 	if err != nil {
 		return errors.New("Invalid empty raw transaction!")
 	}
-	_, inputsEnd, err := decodeEmptyTx(trans)
+	txInputs, inputsEnd, err := decodeEmptyTx(trans)
 	if err != nil {
 		return err
 	}
+	if len(*inputs) != len(txInputs) {
+		return errors.New("Inputs do not match the transaction!")
+	}
+	for i, input := range *inputs {
+		if input == nil || input.txID != txInputs[i].txID || input.vout != txInputs[i].vout || input.sequence != txInputs[i].sequence {
+			return errors.New("Inputs do not match the transaction!")
+		}
+	}
 
 	for i, input := range *inputs {
 		if input.lockScript == "" {
@@ -38,6 +47,9 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if lockScript == "" || len(lockScript) < 50 {
 			return errors.New("Invalid lock script!")
 		}
+		if script, err := hex.DecodeString(lockScript); err != nil || len(script) > math.MaxUint16 {
+			return errors.New("Invalid lock script!")
+		}
 		input.SetLockScript(lockScript)
 		_, err = hex.DecodeString(input.txID)
 		if err != nil || len(input.txID) != 64 {
@@ -75,7 +87,20 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
 
+	// the hashes to verify are those of this very transaction
+	checks := make([]*TxInput, 0, len(inputs))
 	for _, input := range inputs {
+		if input == nil {
+			return false, ""
+		}
+		check := *input
+		checks = append(checks, &check)
+	}
+	if err := GetSigHash(emptyTrans, &checks); err != nil {
+		return false, ""
+	}
+
+	for _, input := range checks {
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
 			return false, ""
 		}
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..ee03a84 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -59,6 +59,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	}
 
 	var inputCount int
+	if tx[index] > 0xfd {
+		return nil, 0, errors.New("Invalid tx data!")
+	}
 	if tx[index] != 0xfd {
 		inputCount = int(tx[index])
 		if inputCount == 0 {
@@ -71,6 +74,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 			return nil, 0, errors.New("Invalid tx data!")
 		}
 		inputCount = int(littleEndianBytesToUint16(tx[index:index+2]))
+		if inputCount < 0xfd {
+			return nil, 0, errors.New("Invalid tx data!")
+		}
 		index += 2
 	}
 
@@ -154,7 +160,12 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
 			lockScript, _ := hex.DecodeString(input.lockScript)
-			tx = append(tx, byte(len(lockScript)))
+			if len(lockScript) < 0xfd {
+				tx = append(tx, byte(len(lockScript)))
+			} else {
+				tx = append(tx, 0xfd)
+				tx = append(tx, uint16ToLittleEndianBytes(uint16(len(lockScript)))...)
+			}
 			tx = append(tx, lockScript...)
 		} else {
 			tx = append(tx, 0x00)
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..0e8b779 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -72,7 +72,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return false
+	}
+	pubBytes = pubBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
-- 
2.43.0


From 6f8fbc7dc857ee62bcbb1a56988a5543c121f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:39 +0000
Subject: [PATCH 60/77] fix: Elastos must refuse ids of wrong length and
 transactions without signatures, and not crash on malformed keys

---
 elastosTransaction/transaction.go | 16 ++++++++++++++--
 elastosTransaction/txIn.go        |  2 +-
 elastosTransaction/txOut.go       |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..e1dadcb 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -1,8 +1,10 @@
 package elastosTransaction
 
 import (
+	"crypto/elliptic"
 	"encoding/hex"
 	"errors"
+	"math/big"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -71,11 +73,21 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 		return false, ""
 	}
 
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
+
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		if len(sp.PublicKey) != 0x21 || len(sp.Signature) != 0x40 {
+			return false, ""
+		}
+		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(publicKey) != 65 || !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(publicKey[1:33]), new(big.Int).SetBytes(publicKey[33:])) {
+			return false, ""
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(publicKey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
 	}
diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
-- 
2.43.0


From ffebdfa22bbd9a2a8f9d5e87042f31058c07dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:39 +0000
Subject: [PATCH 61/77] fix: FIII must refuse output indexes and counts it
 cannot represent

---
 fiiiTransaction/transaction.go |  4 ++++
 fiiiTransaction/txInput.go     | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/fiiiTransaction/transaction.go b/fiiiTransaction/transaction.go
index 50caa9f..26f97de 100644
--- a/fiiiTransaction/transaction.go
+++ b/fiiiTransaction/transaction.go
@@ -100,6 +100,10 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []SigPub) (bool, stri
 		return false, "", errors.New("Signatures are not enough to unlock transaction!")
 	}
 
+	if txMsg.InputCount != len(txMsg.Inputs) || txMsg.OutputCount != len(txMsg.Outputs) {
+		return false, "", errors.New("Invalid empty transaction data!")
+	}
+
 	for i := 0; i < len(sigPub); i++ {
 		msg, err := txMsg.Inputs[i].genMessageBytes()
 		if err != nil {
diff --git a/fiiiTransaction/txInput.go b/fiiiTransaction/txInput.go
index d6fffe3..d1cd2ff 100644
--- a/fiiiTransaction/txInput.go
+++ b/fiiiTransaction/txInput.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"math"
 )
 
 type InputMsg struct {
@@ -26,6 +27,10 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 		return nil, err
 	}
 
+	if in.Vout < 0 || int64(in.Vout) > math.MaxUint32 {
+		return nil, errors.New("Invalid output index!")
+	}
+
 	ret.OutputTransactionHash = in.TxID
 	ret.OutputIndex = in.Vout
 
@@ -40,9 +45,12 @@ func (in Vin) genMessage() string {
 
 func (in InputMsg) genMessageBytes() ([]byte, error) {
 	msg, err := hex.DecodeString(in.OutputTransactionHash)
-	if err != nil {
+	if err != nil || len(msg) != 32 {
 		return nil, errors.New("Invalid UTXO ID!")
 	}
+	if in.OutputIndex < 0 || int64(in.OutputIndex) > math.MaxUint32 {
+		return nil, errors.New("Invalid output index!")
+	}
 	vout := make([]byte, 4)
 	binary.BigEndian.PutUint32(vout[:], uint32(in.OutputIndex))
 
-- 
2.43.0


From 9b51e85ecf19466a0281562c59b73e59d11f3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:14 +0000
Subject: [PATCH 62/77] fix: Bytom must encode large integers and any
 multi-signature threshold faithfully, and verify signatures against the
 program they spend

---
 bytomTransaction/transaction.go |  37 +++++++++---
 bytomTransaction/txHash.go      |  10 ++--
 bytomTransaction/txIn.go        |  32 +++++-----
 bytomTransaction/txMultiSig.go  |  38 ++++++------
 bytomTransaction/txOut.go       |  24 ++++----
 bytomTransaction/txProfile.go   |   1 +
 bytomTransaction/txStruct.go    | 103 ++++++++------------------------
 bytomTransaction/txUtil.go      |  36 ++++++++++-
 8 files changed, 139 insertions(+), 142 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..511201d 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -23,12 +24,16 @@ type Vout struct {
 func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTestNet bool) (string, error) {
 
 	for _, addr := range vouts {
+		hrp, _, err := Bech32Decode(addr.Address)
+		if err != nil {
+			return "", errors.New("Invalid address to send!")
+		}
 		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
+			if hrp != Bech32HRPSegwitTestNet {
 				return "", errors.New("Invalid address to send!")
 			}
 		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
+			if hrp != Bech32HRPSegwitMainNet {
 				return "", errors.New("Invalid address to send!")
 			}
 		}
@@ -124,16 +129,28 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(txHashes) != len(emptyTrans.Inputs) {
+		return "", errors.New("Every input needs its own signature data!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
+		if txHashes[i].IsMultiSig() != (len(emptyTrans.Inputs[i].ControlProgram) == 34) {
+			return "", errors.New("Signature data does not fit the input!")
+		}
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("Public keys do not belong to the input!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil {
+				return "", errors.New("No signature data found!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
@@ -178,16 +195,15 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig, signedTrans.Inputs[i].ControlProgram)
 			if err != nil {
 				return false
 			}
+			// signatures come in the order of their public keys, each key counts once
 			count := 0
-			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+			for k := 0; k < len(pubs) && count < len(sigs); k++ {
+				if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[count], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					count++
 				}
 			}
 
@@ -195,6 +211,9 @@ func VerifyRawTransaction(txHex string) bool {
 				return false
 			}
 		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..0877344 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -69,9 +69,12 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	scriptHash = append([]byte{0x00, 0x20}, scriptHash...)
 
-	sigBytes := []byte{}
+	if th.NRequired > byte(len(th.Multi)) || len(th.Multi) > maxMultiKeys {
+		return nil, nil, errors.New("Invalid required number or count of pubkeys!")
+	}
 
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	// the arguments are the required signatures and the script
+	sigBytes := []byte{th.NRequired + 1}
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +98,8 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..a088073 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -74,10 +74,16 @@ func newTxInForEmptyTrans(vin []Vin) ([]TxIn, error) {
 	if vin == nil || len(vin) == 0 {
 		return nil, errors.New("No input found when create an empty transaction!")
 	}
+	if len(vin) > maxCount {
+		return nil, errors.New("Too many inputs!")
+	}
 	var ret []TxIn
 
 	for _, v := range vin {
 		var in TxIn
+		if v.SourcePosition > maxUvarint63 || v.Amount > maxUvarint63 {
+			return nil, errors.New("Source position or amount is out of range!")
+		}
 		if nil != in.SetSourceID(v.SourceID) {
 			return nil, errors.New("Invalid source ID!")
 		}
@@ -134,6 +140,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 		ret = append(ret, 0x01, 0x00)
 	} else {
 		if in.SigPub == nil {
+			ret = append(ret, uint64ToUvarint(uint64(len(in.MultiSig)))...)
 			ret = append(ret, in.MultiSig...)
 		} else {
 			spBytes, err := in.SigPub.toBytes()
@@ -184,28 +191,17 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
-	if index+1 > limit {
+	sourcePos, err := readUvarint(script, index)
+	if err != nil {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-
-	sourcePos := script[index : index+1]
-	index++
+	index += len(sourcePos)
 
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..95d612f 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -12,6 +13,10 @@ func CreateMultiSig(required byte, pubkeys [][]byte, isTestNet bool) (string, st
 		return "", "", errors.New("No pubkeys input!")
 	}
 
+	if len(pubkeys) > maxMultiKeys {
+		return "", "", errors.New("Too many pubkeys!")
+	}
+
 	if required <= 0 {
 		return "", "", errors.New("Required number should be at least one!")
 	}
@@ -88,7 +93,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if required <= 0 || int(required) > len(multi) || len(multi) > maxMultiKeys {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
@@ -114,7 +119,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 	return multi, required, nil
 }
 
-func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
+func getMultiSigPubs(sp []byte, controlProgram []byte) ([][]byte, [][]byte, error) {
 
 	var sigs [][]byte
 	var pubs [][]byte
@@ -122,15 +127,12 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	limit := len(sp)
 	index := 0
 
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
+	if index+1 > limit {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	index += 2
+	args := int(sp[index])
+	index++
 
 	for {
 		if index+1 > limit {
@@ -149,20 +151,15 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 		}
 	}
 
-	if index+1 > limit {
+	if args != len(sigs)+1 {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	commitLen := int(sp[index])
-
-	index++
-
-	if index+commitLen != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if index+1 > limit {
+	signScript, next, err := readUvarbytes(sp, index)
+	if err != nil || next != limit || len(signScript) == 0 {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
+	index = limit - len(signScript)
 	if sp[index] != Op_TxSignHash {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
@@ -199,7 +196,7 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	if int(required) != len(sigs) {
+	if len(sigs) == 0 || len(sigs) > len(pubs) || int(required) != len(sigs) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 	if index+1 > limit {
@@ -215,5 +212,10 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
+	scriptHash := owcrypt.Hash(signScript, 0, owcrypt.HASH_ALG_SHA3_256)
+	if !bytes.Equal(controlProgram, append([]byte{0x00, 0x20}, scriptHash...)) {
+		return nil, nil, errors.New("Script does not belong to the control program!")
+	}
+
 	return sigs, pubs, nil
 }
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..0b4c940 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -48,9 +48,15 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 		return nil, errors.New("No address to send when create an empty transaction!")
 	}
 
+	if len(vout) > maxCount {
+		return nil, errors.New("Too many outputs!")
+	}
 	var ret []TxOut
 
 	for _, v := range vout {
+		if v.Amount > maxUvarint63 {
+			return nil, errors.New("Amount is out of range!")
+		}
 		var tmp TxOut
 		tmp.SetAssetID()
 		if nil != tmp.SetControlProgram(v.Address) {
@@ -101,21 +107,11 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
-
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
 	if index+1 > limit {
 		return nil, nil, nil, errors.New("Invalid output script data!")
diff --git a/bytomTransaction/txProfile.go b/bytomTransaction/txProfile.go
index 929c482..b743f2c 100644
--- a/bytomTransaction/txProfile.go
+++ b/bytomTransaction/txProfile.go
@@ -18,6 +18,7 @@ const (
 	Op_1                      = byte(0x51)
 	Op_TxSignHash             = byte(0xAE)
 	Op_CheckMultiSig          = byte(0xAD)
+	maxMultiKeys              = 16
 
 	BTMAssetID = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
 )
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..fb37d87 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -26,6 +26,9 @@ func (t *Transaction) GetTimeRange() uint64 {
 }
 
 func newEmptyTransaction(vins []Vin, vouts []Vout, timeRange uint64) (*Transaction, error) {
+	if timeRange > maxUvarint63 {
+		return nil, errors.New("Time range is out of range!")
+	}
 	txIn, err := newTxInForEmptyTrans(vins)
 	if err != nil {
 		return nil, err
@@ -111,38 +114,22 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	version, err := readUvarint(txBytes, index)
+	if err != nil || uvarintToUint64(version) != DefaultTransactionVersion {
+		return nil, errors.New("Invalid transaction version!")
 	}
 
-	rawTx.Version = txBytes[index : index+offset]
-	index += offset
+	rawTx.Version = version
+	index += len(version)
 
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	timeRange, err := readUvarint(txBytes, index)
+	if err != nil {
+		return nil, errors.New("Invalid transaction data!")
 	}
 
-	rawTx.TimeRange = txBytes[index : index+offset]
-	index += offset
+	rawTx.TimeRange = timeRange
+	index += len(timeRange)
 
 	//get count of inputs
 	if index+1 > limit {
@@ -150,7 +137,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	}
 	numOfVins := txBytes[index]
 	index++
-	if numOfVins <= 0 {
+	if numOfVins <= 0 || numOfVins > maxCount {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
@@ -191,58 +178,18 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 
 		index += commitLength
 
-		if index+1 > limit {
+		witness, next, err := readUvarbytes(txBytes, index)
+		if err != nil || len(witness) == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
-				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
-			}
-		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
-				return nil, errors.New("Invalid transaction data!")
-			}
+		index = next
+
+		if len(witness) == 99 && witness[0] == 0x02 && witness[1] == 0x40 && witness[66] == 0x20 {
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
+		} else if len(witness) != 1 {
+			in.MultiSig = witness
+		} else if witness[0] != 0x00 {
+			return nil, errors.New("Invalid transaction data!")
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
@@ -252,7 +199,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	}
 	numOfVouts := txBytes[index]
 	index++
-	if numOfVouts == 0 {
+	if numOfVouts == 0 || numOfVouts > maxCount {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..a9048dd 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -2,10 +2,18 @@ package bytomTransaction
 
 import (
 	"encoding/binary"
+	"errors"
+)
+
+// the chain reads amounts, positions and times as varints of at most 63 bits,
+// counts in one byte
+const (
+	maxUvarint63 = uint64(1)<<63 - 1
+	maxCount     = 0x7f
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
@@ -40,3 +48,29 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// readUvarint returns the encoded varint that starts at index
+func readUvarint(data []byte, index int) ([]byte, error) {
+	if index < 0 || index >= len(data) {
+		return nil, errors.New("Invalid varint data!")
+	}
+	value, length := binary.Uvarint(data[index:])
+	if length <= 0 || value > maxUvarint63 || length != len(uint64ToUvarint(value)) {
+		return nil, errors.New("Invalid varint data!")
+	}
+	return data[index : index+length], nil
+}
+
+// readUvarbytes returns the byte string with varint length that starts at index, and the index after it
+func readUvarbytes(data []byte, index int) ([]byte, int, error) {
+	prefix, err := readUvarint(data, index)
+	if err != nil {
+		return nil, 0, err
+	}
+	index += len(prefix)
+	length := uvarintToUint64(prefix)
+	if length > uint64(len(data)-index) {
+		return nil, 0, errors.New("Invalid data length!")
+	}
+	return data[index : index+int(length)], index + int(length), nil
+}
-- 
2.43.0


From 81d6b75ac244e0833ced897450dc742091befb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:54 +0000
Subject: [PATCH 63/77] fix: WaykiChain must refuse negative amounts and
 unreadable register ids, size long data correctly and bind registrations to
 their key

---
 waykichainTransaction/transaction.go |  9 ++-
 waykichainTransaction/txStruct.go    | 93 ++++++++++++++++------------
 waykichainTransaction/txUtils.go     | 30 +++++++++
 3 files changed, 93 insertions(+), 39 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..5ec2ceb 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,7 +63,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	if !mayBeSignedBy(emptyTrans, sigPub.PublicKey) {
+		return false, ""
+	}
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 {
+		return false, ""
+	}
+	pubkey = pubkey[1:]
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..05c4341 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -1,10 +1,9 @@
 package waykichainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -27,18 +26,16 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if amount < 0 || fee < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	commonTx.FromUserID = fromID
 
 	destID, err := GetProgramHashFromAddress(toAddress)
 	if err != nil {
@@ -100,6 +97,9 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
 	if err != nil || len(pubkey) != 0x21 {
@@ -158,28 +158,20 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
-	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
+	if amount < 0 || fee < 0 {
+		return nil, errors.New("Negative amount or fee!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.ValidHeight = int64ToUvarint(validHeight)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	contractTx.FromUserID = fromID
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.AppID, err = regIDToBytes(appID)
+	if err != nil {
+		return nil, err
 	}
-	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
 
 	contractTx.Fee = int64ToUvarint(fee)
 
@@ -189,7 +181,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
-	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
+	contractTx.ContractHex = append(compactSize(len(contract)), contract...)
 
 	return &contractTx, nil
 }
@@ -242,15 +234,16 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if amount < 0 || fee < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
-	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	ucoinTransferTx.FromUserID = fromID
 
 	ucoinTransferTx.FeeSymbol = append([]byte{byte(len(DefaultFeeSymbol))}, []byte(DefaultFeeSymbol)...)
 
@@ -267,7 +260,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 		return nil, errors.New("Invalid coin name!")
 	}
 
-	ucoinTransferTx.CoinName = append([]byte{byte(len(coin))}, []byte(coin)...)
+	ucoinTransferTx.CoinName = append(compactSize(len(coin)), []byte(coin)...)
 
 	ucoinTransferTx.CoinAmount = int64ToUvarint(amount)
 
@@ -316,6 +309,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
@@ -325,4 +322,24 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 	txBytes[1] = tmp
 
 	return owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256), nil
-}
\ No newline at end of file
+}
+
+// mayBeSignedBy - a register account transaction must be signed by the key it registers
+func mayBeSignedBy(emptyTrans string, pubkey []byte) bool {
+	txBytes, err := hex.DecodeString(emptyTrans)
+	if err != nil || len(txBytes) < 2 {
+		return false
+	}
+	if txBytes[0] != TxType_REGACCT {
+		return true
+	}
+	index := 2
+	for index < len(txBytes) && txBytes[index]&0x80 != 0 { // valid height
+		index++
+	}
+	index++
+	if index+0x22 > len(txBytes) || txBytes[index] != 0x21 {
+		return false
+	}
+	return bytes.Equal(txBytes[index+1:index+0x22], pubkey)
+}
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..99ada40 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,10 @@
 package waykichainTransaction
 
 import (
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +59,30 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+// regIDToBytes - encode the register ID "height-index" with its length
+func regIDToBytes(regID string) ([]byte, error) {
+	if !isRegIdStr(regID) {
+		return nil, errors.New("Invalid register ID!")
+	}
+	idBytes := []byte{}
+	for _, id := range strings.Split(strings.TrimSpace(regID), "-") {
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
+		idBytes = append(idBytes, int64ToUvarint(data)...)
+	}
+	return append([]byte{byte(len(idBytes))}, idBytes...), nil
+}
+
+// compactSize - length prefix of variable length data
+func compactSize(size int) []byte {
+	if size < 0xfd {
+		return []byte{byte(size)}
+	}
+	if size <= 0xffff {
+		return []byte{0xfd, byte(size), byte(size >> 8)}
+	}
+	return []byte{0xfe, byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}
+}
-- 
2.43.0


From 11da4f383d765dd349a396daa7569ddbaeed6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:54 +0000
Subject: [PATCH 64/77] fix: Ontology must refuse requests it cannot represent,
 unsigned or unverifiable combinations, and read signed transactions

---
 ontologyTransaction/transaction.go | 45 ++++++++++++++++++++++++++++--
 ontologyTransaction/txStruct.go    | 17 ++++++-----
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..c5ce792 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -1,6 +1,7 @@
 package ontologyTransaction
 
 import (
+	"crypto/elliptic"
 	"crypto/rand"
 	"encoding/hex"
 	"errors"
@@ -30,12 +31,17 @@ func CreateRawTransactionAndHash(gasPrice, gasLimit uint64, txState TxState) (st
 	if txState.Payer == "" {
 		txState.Payer = txState.From
 	}
+	if err := checkRequest(txState.AssetType, txState.Payer); err != nil {
+		return "", nil, err
+	}
 	payLoad, err := NewNativeInvoke(txState).ToBytes()
 	if err != nil {
 		return "", nil, err
 	}
 	randNounce := make([]byte, 4)
-	_, err = rand.Read(randNounce[:])
+	if _, err = rand.Read(randNounce[:]); err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -56,12 +62,20 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	if txState.Payer == "" {
 		txState.Payer = txState.From
 	}
+	if err := checkRequest(txState.AssetType, txState.Payer); err != nil {
+		return "", nil, err
+	}
+	if txState.Amount == nil || txState.Amount.Sign() < 0 {
+		return "", nil, errors.New("Invalid amount!")
+	}
 	payLoad, err := NewNativeInvokeV2(txState).ToBytes()
 	if err != nil {
 		return "", nil, err
 	}
 	randNounce := make([]byte, 4)
-	_, err = rand.Read(randNounce[:])
+	if _, err = rand.Read(randNounce[:]); err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -77,6 +91,17 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	return hex.EncodeToString(txBytes), &th, nil
 }
 
+// checkRequest - the asset type must be known and the payer an address of this chain
+func checkRequest(assetType int, payer string) error {
+	if assetType != AssetONT && assetType != AssetONG && assetType != AssetONGWithdraw {
+		return errors.New("Unknown asset type!")
+	}
+	if prefix, _, err := DecodeCheck(payer); err != nil || prefix != AddressPrefix {
+		return errors.New("Invalid payer!")
+	}
+	return nil
+}
+
 func SignRawTransactionHash(txHash string, prikey []byte) (*SigPub, error) {
 	hash, err := hex.DecodeString(txHash)
 	if err != nil {
@@ -96,10 +121,21 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("Transaction is signed already!")
+	}
+	if len(sigpub) == 0 || len(sigpub) > 0xFC {
+		return false, "", errors.New("Invalid number of signatures!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(pubkey) != 65 || !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(pubkey[1:33]), new(big.Int).SetBytes(pubkey[33:])) {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
@@ -108,5 +144,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..944c248 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -5,6 +5,9 @@ import (
 	"errors"
 )
 
+// longer payloads do not have a single byte length
+const maxPayloadLength = 0xFC
+
 type Transaction struct {
 	Version    byte
 	TxType     byte
@@ -78,7 +81,7 @@ func (t Transaction) ToBytes() ([]byte, error) {
 		return nil, errors.New("Invalid payer!")
 	}
 	ret = append(ret, t.Payer...)
-	if t.Payload == nil || len(t.Payload) == 0 {
+	if t.Payload == nil || len(t.Payload) == 0 || len(t.Payload) > maxPayloadLength {
 		return nil, errors.New("Invalid invoke code!")
 	}
 	ret = append(ret, byte(len(t.Payload)))
@@ -164,7 +167,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	payloadLen := txBytes[index]
 	index++
 
-	if payloadLen == 0 {
+	if payloadLen == 0 || payloadLen > maxPayloadLength {
 		return nil, errors.New("Invalid trnsaction data!")
 	}
 
@@ -196,16 +199,11 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
 		sigLen := int(txBytes[index])
 		index++
 
+		var sigData SigData
 		for i := 0; i < sigLen; i++ {
 			if index+102 > limit {
 				return nil, errors.New("Invalid transaction data!")
@@ -214,12 +212,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			sigData.SigPubs = append(sigData.SigPubs, *sigpub)
 			index += 102
 		}
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
+		tx.SigDatas = append(tx.SigDatas, sigData)
 	}
 
 	return &tx, nil
-- 
2.43.0


From e3f6ef417e8023b72c1a6bb7e52226c62af05e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:13 +0000
Subject: [PATCH 65/77] fix: encoding an address must not write into the
 buffers of the caller's prefix or hash

---
 addressEncoder/addressEncoder.go | 2 +-
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 elastosTransaction/base58.go     | 2 +-
 fiiiTransaction/base58.go        | 2 +-
 hcTransaction/base58.go          | 2 +-
 hypercashTransaction/base58.go   | 2 +-
 omniTransaction/base58.go        | 2 +-
 vollarTransaction/base58.go      | 2 +-
 waykichainTransaction/base58.go  | 2 +-
 zencashTransaction/base58.go     | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index f816da8..ae7698c 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -73,7 +73,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(append([]byte{}, data1...), data2...)
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index 20e568e..cb9f216 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index 1cfd912..54f77c0 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 23bfd60..281e57d 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index 046bce0..03385d6 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index b664773..1d21cd3 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index f5fa557..acedc61 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -176,7 +176,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index db810db..858b2de 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 8013fe3..eeeace3 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index 613c56d..8262409 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index b04d40b..d22df54 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 83f1c3e..ad2dddb 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 85a1b17..cd8e287 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 2587b7bc821f163b96d454deff127a9bff1f21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:43 +0000
Subject: [PATCH 66/77] fix: legacy driver must pay exactly once to bech32
 outputs and refuse malformed witness addresses

---
 btcLikeTxDriver/bech32.go | 48 +++++++++++++++++++++++----------------
 btcLikeTxDriver/txOut.go  |  1 +
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..fe2dbfd 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -124,20 +124,6 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
-	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
-}
-
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
 	int8Payload := make([]int8, len(payload))
 	for i := 0; i < len(payload); i++ {
@@ -200,18 +186,40 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	// witness version and checksum at least
+	if valueSize < 7 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
+	// only version 0 witness programs are supported
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	payload := value[1 : valueSize-6]
+	padding := uint(len(payload) * 5 % 8)
+	if padding >= 5 || (padding != 0 && payload[len(payload)-1]&(1<<padding-1) != 0) {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc := uint(0)
+	bits := uint(0)
+	for _, v := range payload {
+		acc = acc<<5 | uint(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 	return bytePayload, nil
 }
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..e3ebf0d 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -26,6 +26,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From c7705dbfa57cf521a5893a3cf3ae904f71b04b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:17 +0000
Subject: [PATCH 67/77] fix: legacy driver must encode witness signatures as
 strict DER and refuse any other encoding

---
 btcLikeTxDriver/signaturepubkey.go |  12 +++-
 btcLikeTxDriver/txStruct.go        |   5 +-
 btcLikeTxDriver/witness.go         | 101 ++---------------------------
 3 files changed, 18 insertions(+), 100 deletions(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..4d5a178 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -77,7 +78,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -159,7 +160,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -242,5 +243,10 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index != len(script) {
 		return nil, errors.New("Invalid transaction data!")
 	}
+
+	// only the strict DER encoding of the signature is accepted
+	if !bytes.Equal(ret.encodeToScript(SigHashAll), script) {
+		return nil, errors.New("Invalid signature data!")
+	}
 	return &ret, nil
 }
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..ef8acb6 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -266,7 +266,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..20ae434 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sigPub, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sigPub.Signature, sigPub.Pubkey}, nil
 }
-- 
2.43.0


From b70139ff3581901bc0a3057aff994e5e3bcdb688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:50 +0000
Subject: [PATCH 68/77] fix: legacy driver must refuse transactions with counts
 or lengths it cannot encode

---
 btcLikeTxDriver/txStruct.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index ef8acb6..984eb07 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -13,6 +13,9 @@ const (
 	TypeBech32 = 2
 )
 
+// the largest count or length which takes a single byte in a transaction
+const maxSingleByteSize = 0xFC
+
 type Transaction struct {
 	Version  []byte
 	Vins     []TxIn
@@ -52,6 +55,21 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	// counts and lengths are written in a single byte
+	if len(t.Vins) > maxSingleByteSize || len(t.Vouts) > maxSingleByteSize {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+	for _, in := range t.Vins {
+		if len(in.ScriptPubkeySignature) > maxSingleByteSize {
+			return nil, errors.New("Invalid transaction input!")
+		}
+	}
+	for _, out := range t.Vouts {
+		if len(out.lockScript) > maxSingleByteSize {
+			return nil, errors.New("Invalid transaction output!")
+		}
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 	if t.isMultiSig() {
@@ -176,6 +194,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 	numOfVins := txBytes[index]
+	if numOfVins == 0 || int(numOfVins) > maxSingleByteSize {
+		return nil, errors.New("Invalid number of transaction inputs!")
+	}
 	index++
 
 	for i := byte(0); i < numOfVins; i++ {
@@ -197,6 +218,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data length!")
 		}
 		scriptLen := txBytes[index]
+		if int(scriptLen) > maxSingleByteSize {
+			return nil, errors.New("Invalid script length!")
+		}
 		index++
 		if scriptLen == 0 {
 			tmpTxIn.ScriptPubkeySignature = nil
@@ -221,6 +245,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 	numOfVouts := txBytes[index]
+	if numOfVouts == 0 || int(numOfVouts) > maxSingleByteSize {
+		return nil, errors.New("Invalid number of transaction outputs!")
+	}
 	index++
 
 	for i := byte(0); i < numOfVouts; i++ {
@@ -236,6 +263,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data length!")
 		}
 		lockScriptLen := txBytes[index]
+		if int(lockScriptLen) > maxSingleByteSize {
+			return nil, errors.New("Invalid script length!")
+		}
 		index++
 
 		if index+int(lockScriptLen) > limit {
@@ -276,6 +306,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Unsupported witness data!")
 			}
 		}
 	}
-- 
2.43.0


From 28c3ab691d0c706458b1ffa0ce6feb7725e60f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:51 +0000
Subject: [PATCH 69/77] fix: legacy driver must assemble each input by its lock
 script, with one signature per input or the required ones of a multisig

---
 btcLikeTxDriver/multiSig.go    | 51 +++++++++++++++---------------
 btcLikeTxDriver/transaction.go | 58 ++++++++++++++++++++++------------
 btcLikeTxDriver/txStruct.go    | 33 +++++++++----------
 btcLikeTxDriver/utils.go       |  8 +++++
 4 files changed, 87 insertions(+), 63 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..34b0db5 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -11,7 +11,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -45,29 +45,9 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	return EncodeCheck(P2SHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
-func (t Transaction) isMultiSig() bool {
-	if len(t.Vins) != 1 {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
-}
-
 func isMultiSig(lockScript, redeemScript string) bool {
-	if len(lockScript) != 0x17*2 {
-		return false
-	}
-
 	lockBytes, err := hex.DecodeString(lockScript)
-	if err != nil {
-		return false
-	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if err != nil || checkScriptType(lockBytes) != TypeP2SH {
 		return false
 	}
 
@@ -76,11 +56,32 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
+	return multiSigRequired(redeemBytes) > 0
+}
+
+// multiSigRequired returns the number of signatures the script requires, 0 if it is not a multisignature script
+func multiSigRequired(redeem []byte) int {
+	limit := len(redeem)
+	if limit < 3 || redeem[limit-1] != OpCheckMultiSig {
+		return 0
 	}
-	return true
 
+	keys := 0
+	index := 1
+	for index < limit-2 {
+		keyLen := int(redeem[index])
+		if keyLen != 33 && keyLen != 65 {
+			return 0
+		}
+		index += 1 + keyLen
+		keys++
+	}
+
+	required := int(redeem[0]) - int(OpCode_1) + 1
+	if index != limit-2 || required < 1 || required > keys || keys > 16 || int(redeem[limit-2]) != int(OpCode_1)+keys-1 {
+		return 0
+	}
+	return required
 }
 
 func calcRedeemHash(redeem []byte) []byte {
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..e4a7df6 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -174,55 +174,73 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	for i := 0; i < len(sigPub); i++ {
+		if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
+			return "", errors.New("Invalid signature data!")
+		}
+		if sigPub[i].Pubkey == nil || len(sigPub[i].Pubkey) != 33 {
+			return "", errors.New("Invalid pubkey data!")
+		}
+	}
+
+	emptyTrans.Witness = nil
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
+		if len(emptyTrans.Vins) != 1 {
+			return "", errors.New("A multisignature input must be the only one!")
+		}
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
-		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
+		if len(sigPub) != multiSigRequired(redeemBytes) {
+			return "", errors.New("The number of signatures and required keys are not match!")
+		}
+		emptyTrans.redeem = redeemBytes
 		for i := 0; i < len(sigPub); i++ {
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(sigPub) != len(emptyTrans.Vins) {
+			return "", errors.New("The number of transaction inputs and signatures are not match!")
+		}
 		for i := 0; i < len(emptyTrans.Vins); i++ {
-
-			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
-				return "", errors.New("Invalid signature data!")
-			}
-			if sigPub[i].Pubkey == nil || len(sigPub[i].Pubkey) != 33 {
-				return "", errors.New("Invalid pubkey data!")
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lockscript!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			scriptType := checkScriptType(lockBytes)
+			if unlockData[i].LockScript == "" {
+				// only the redeem script given
+				if unlockData[i].RedeemScript == "" {
+					scriptType = TypeP2PKH
+				} else {
+					scriptType = TypeP2SH
+				}
 			}
 
-			if unlockData[i].RedeemScript == "" {
-
+			if scriptType == TypeP2PKH {
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-			} else {
+			} else if scriptType == TypeP2SH || scriptType == TypeBech32 {
 				if emptyTrans.Witness == nil {
 					for j := 0; j < i; j++ {
 						emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
 
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
-					if err != nil {
-						return "", errors.New("Invlalid redeem script!")
+					if err != nil || checkScriptType(redeem) != TypeBech32 {
+						return "", errors.New("Invalid redeem script for a P2SH input!")
 					}
 					redeem = append([]byte{byte(len(redeem))}, redeem...)
 					emptyTrans.Vins[i].ScriptPubkeySignature = redeem
 				}
+			} else {
+				return "", errors.New("Unknown type of lockscript!")
 			}
 		}
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 984eb07..b6069df 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -23,6 +23,7 @@ type Transaction struct {
 	Witness  []TxWitness
 	LockTime []byte
 	//	HashType []byte
+	redeem []byte // multisignature script to spend the only input with
 }
 
 func newTransaction(vins []Vin, vouts []Vout, lockTime uint32, replaceable bool) (*Transaction, error) {
@@ -43,7 +44,7 @@ func newTransaction(vins []Vin, vouts []Vout, lockTime uint32, replaceable bool)
 	version := uint32ToLittleEndianBytes(DefaultTxVersion)
 	locktime := uint32ToLittleEndianBytes(lockTime)
 
-	return &Transaction{version, txIn, txOut, nil, locktime}, nil
+	return &Transaction{version, txIn, txOut, nil, locktime, nil}, nil
 }
 
 func (t Transaction) encodeToBytes() ([]byte, error) {
@@ -72,7 +73,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, t.Version...)
-	if t.isMultiSig() {
+	if t.redeem != nil {
 		if t.Witness == nil {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
@@ -84,7 +85,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 			ret = append(ret, in.TxID...)
 			ret = append(ret, in.Vout...)
-			redeemHash := calcRedeemHash(in.ScriptPubkeySignature)
+			redeemHash := calcRedeemHash(t.redeem)
 			ret = append(ret, byte(len(redeemHash)))
 			ret = append(ret, redeemHash...)
 			ret = append(ret, in.Sequence...)
@@ -100,7 +101,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
@@ -111,9 +112,9 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, compactSize(len(t.redeem))...)
 
-		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
+		ret = append(ret, t.redeem...)
 	} else {
 
 		if t.Witness != nil {
@@ -331,11 +332,11 @@ func isScriptHash(script []byte) bool {
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -372,19 +373,15 @@ func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	}
 
 	ret := []byte{}
-	if redeemBytes[0] == 0x00 && redeemBytes[1] == 0x14 {
+	if checkScriptType(redeemBytes) == TypeBech32 {
 		ret = redeemBytes[2:]
-
-		if len(ret) != 0x14 {
-			return nil, errors.New("Invalid redeem script!")
-		}
 		ret = append([]byte{byte(len(ret))}, ret...)
 		ret = append([]byte{OpCodeDup, OpCodeHash160}, ret...)
 		ret = append(ret, OpCodeEqualVerify, OpCodeCheckSig)
-	} else {
-		//TODO
-		//for multi sig
+	} else if multiSigRequired(redeemBytes) > 0 {
 		ret = redeemBytes
+	} else {
+		return nil, errors.New("Invalid redeem script!")
 	}
 
 	return ret, nil
@@ -409,7 +406,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..683e8c0 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -54,3 +54,11 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encode a length
+func compactSize(size int) []byte {
+	if size <= maxSingleByteSize {
+		return []byte{byte(size)}
+	}
+	return []byte{0xFD, byte(size), byte(size >> 8)}
+}
-- 
2.43.0


From 262334e99d5feda6fe9eea6bada38d18996e5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 70/77] fix: legacy driver must not alter the caller's unlock
 data or decoded transaction when reading it

---
 btcLikeTxDriver/txStruct.go | 8 ++++++--
 btcLikeTxDriver/utils.go    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index b6069df..9e58db1 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -424,6 +424,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		return nil, errors.New("The number of Keys and UTXOs are not match!")
 	}
 
+	// signatures already present are not covered
+	t.Witness = nil
+
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
 		for j := 0; j < len(unlockData); j++ {
@@ -440,10 +443,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
+			unlock := unlockData[i]
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 683e8c0..574b2ff 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
-- 
2.43.0


From facac8dc08eac257ba8038ec0212a36cf6ca88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 71/77] fix: legacy driver must verify that keys and scripts
 are the ones the spent outputs are locked to

---
 btcLikeTxDriver/transaction.go | 72 +++++++++++++++++++++++++---------
 btcLikeTxDriver/txStruct.go    |  7 +++-
 2 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e4a7df6..24f0dda 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -1,9 +1,11 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -268,35 +270,67 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 	}
 
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
+	unlock := append([]TxUnlock{}, unlockData...)
+	segwit := false
+	for i, vin := range signedTrans.Vins {
+		lockBytes, err := hex.DecodeString(unlock[i].LockScript)
+		if err != nil {
+			return false
+		}
+
+		var pubkeyHash []byte
+		switch checkScriptType(lockBytes) {
+		case TypeP2PKH:
+			if signedTrans.Witness != nil && signedTrans.Witness[i].Signature != nil {
+				return false
+			}
+			tmp, err := decodeFromScriptBytes(vin.ScriptPubkeySignature)
 			if err != nil {
 				return false
 			}
 			sigAndPub = append(sigAndPub, *tmp)
+			pubkeyHash = lockBytes[3:23]
+		case TypeP2SH:
+			redeem := vin.ScriptPubkeySignature
+			if len(redeem) != 23 || redeem[0] != 22 || checkScriptType(redeem[1:]) != TypeBech32 {
+				return false
+			}
+			redeem = redeem[1:]
+			if !bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+				return false
+			}
+			unlock[i].RedeemScript = hex.EncodeToString(redeem)
+			pubkeyHash = redeem[2:]
+		case TypeBech32:
+			if len(vin.ScriptPubkeySignature) != 0 {
+				return false
+			}
+			pubkeyHash = lockBytes[2:]
+		default:
+			return false
 		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
-					return false
-				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
-				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+
+		if len(sigAndPub) == i {
+			if signedTrans.Witness == nil || signedTrans.Witness[i].Signature == nil {
+				return false
 			}
+			segwit = true
+			sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
+		}
+
+		// the key must be the one the output is locked to
+		if !bytes.Equal(owcrypt.Hash(sigAndPub[i].Pubkey, 0, owcrypt.HASH_ALG_HASH160), pubkeyHash) {
+			return false
 		}
 	}
 
+	if segwit != (signedTrans.Witness != nil) {
+		return false
+	}
+
 	signedTrans.Witness = nil
 
-	hashes, err := signedTrans.getHashesForSig(unlockData)
+	hashes, err := signedTrans.getHashesForSig(unlock)
 	if err != nil {
 		return false
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 9e58db1..2ee93d2 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -476,8 +476,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false
+		}
+		if owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
-- 
2.43.0


From f54d0ad25dfc5858a2b871fa58299f18551dce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 72/77] fix: legacy driver must put every signature into a
 directly signed transaction

---
 btcLikeTxDriver/transaction.go | 42 +---------------------------------
 1 file changed, 1 insertion(+), 41 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 24f0dda..51c5b7b 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -89,47 +89,7 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 		return "", err
 	}
 
-	for i := 0; i < len(sigPub); i++ {
-		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
-		if err != nil {
-			return "", errors.New("Invalid lock script or redeem script!")
-		}
-
-		scriptType := checkScriptType(lockBytes)
-		//if isScriptHash(lockBytes) {
-		if scriptType == TypeP2SH || scriptType == TypeBech32 {
-
-			if scriptType == TypeBech32 {
-				emptyTrans.Vins[i].ScriptPubkeySignature = nil
-			} else {
-				redeemScript, err := hex.DecodeString(unlockData[i].RedeemScript)
-				if err != nil {
-					return "", errors.New("Invalid redeem script!")
-				}
-				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
-				emptyTrans.Vins[i].ScriptPubkeySignature = redeemScript
-			}
-
-			if emptyTrans.Witness == nil {
-				for j := 0; j < i; j++ {
-					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-			}
-
-		} else {
-			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-			if emptyTrans.Witness != nil {
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-			}
-		}
-	}
-
-	txBytes, err = emptyTrans.encodeToBytes()
-	if err != nil {
-		return "", err
-	}
-	return hex.EncodeToString(txBytes), nil
+	return InsertSignatureIntoEmptyTransaction(txHex, sigPub, unlockData)
 }
 
 func SignRawTransactionHash(txHash []string, unlockData []TxUnlock) ([]SignaturePubkey, error) {
-- 
2.43.0


From 6a69e776424ac4f308dd3ebaac610d369e120d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 73/77] fix: Base64 encodings keep their alphabet, so encoding
 and decoding no longer panic

---
 addressEncoder/base64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..af4e3fc 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,7 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
-	copy(e.encode[:], encoder)
+	e.encode = []byte(encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
 		e.decodeMap[i] = 0xFF
-- 
2.43.0


From 6892b4ae56209810aff9d6d3e143038b19a810f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 74/77] fix: bech32m texts with non-ASCII letters that fold to
 ASCII are refused

---
 addressEncoder/bech32m/bech32m.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index 5738a8f..d137006 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -96,6 +96,12 @@ func Decode(bechString string, charset string) (string, []byte, int, error) {
 	if len(bechString) > 90 {
 		return "", nil, Failed, fmt.Errorf("Overall max length exceeded")
 	}
+	for i := 0; i < len(bechString); i++ {
+		// only ASCII: other letters may fold to ASCII ones
+		if bechString[i] > 126 {
+			return "", nil, Failed, fmt.Errorf("Invalid character")
+		}
+	}
 	if strings.ToLower(bechString) != bechString && strings.ToUpper(bechString) != bechString {
 		return "", nil, Failed, fmt.Errorf("Mixed case")
 	}
-- 
2.43.0


From e6f6eaed437f7127ced4422114715524411d4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 75/77] fix: codec helpers no longer write into their caller's
 arrays

---
 addressEncoder/bech32m/bech32m.go | 2 +-
 bytomTransaction/bech32.go        | 2 +-
 owkeychain/owencode.go            | 3 ++-
 polkadotTransaction/codec.go      | 2 ++
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index d137006..8889b76 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -81,7 +81,7 @@ func createChecksum(hrp string, data []byte, spec int) []byte {
 
 // Encode compute a Bech32 string given HRP and data values.
 func Encode(hrp string, data []byte, spec int, charset string) string {
-	combined := append(data, createChecksum(hrp, data, spec)...)
+	combined := append(append([]byte{}, data...), createChecksum(hrp, data, spec)...)
 	var ret bytes.Buffer
 	ret.WriteString(hrp)
 	ret.WriteString("1")
diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 2d5c6bd..c1eeae0 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 4f6e5e6..f0e3b2c 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -23,6 +23,7 @@ func ExtendLEBytes(input []byte, length int) []byte {
 	if diff == 0 {
 		return input
 	}
+	input = append([]byte{}, input...)
 	for i := 0; i < diff; i++ {
 		input = append(input, 0)
 	}
@@ -59,6 +60,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 		res = append(res, bytes...)
 	} else {
 		mode := fourByteMode
+		bytes = append([]byte{}, bytes...)
 
 		switch lenOfBytes {
 		case 1:
-- 
2.43.0


From 99bcd21f13b3d0fc984cf136ddecd5340f901378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 76/77] fix: Cosmos and Eva Bech32Decode returns payloads of
 every size and refuses short or badly padded texts

---
 cosmosTransaction/bech32.go | 39 ++++++++++++++++++++++---------------
 evaioTransaction/bech32.go  | 39 ++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..463b27b 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cosmosTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,17 +124,23 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
+// unecxtendPayload joins groups of five bits to bytes; nil when the padding is not shorter than a group and zero
 func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+	ret := make([]int8, 0, len(extendedPayload)*5/8)
+	acc := uint32(0)
+	bits := uint(0)
+	for _, v := range extendedPayload {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, int8(acc>>bits))
+			acc &= 1<<bits - 1
+		}
+	}
+	if bits >= 5 || acc != 0 {
+		return nil
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
 	return ret
 }
 
@@ -189,7 +194,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	if prefixSize == 0 || len(address)-prefixSize-1 < 6 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(strings.Split(address, "1")[0])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -209,16 +218,14 @@ func Bech32Decode(address string) ([]byte, error) {
 	copy(tmp, value)
 
 	ret := unecxtendPayload(tmp)
+	if ret == nil {
+		return nil, ErrorInvalidAddress
+	}
 	bytePayload := make([]byte, len(ret))
 
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
 	return bytePayload, nil
 }
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..f1cdd2d 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -1,7 +1,6 @@
 package evaioTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,17 +124,23 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
+// unecxtendPayload joins groups of five bits to bytes; nil when the padding is not shorter than a group and zero
 func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+	ret := make([]int8, 0, len(extendedPayload)*5/8)
+	acc := uint32(0)
+	bits := uint(0)
+	for _, v := range extendedPayload {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, int8(acc>>bits))
+			acc &= 1<<bits - 1
+		}
+	}
+	if bits >= 5 || acc != 0 {
+		return nil
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
 	return ret
 }
 
@@ -189,7 +194,11 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	if prefixSize == 0 || len(address)-prefixSize-1 < 6 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(strings.Split(address, "1")[0])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -209,16 +218,14 @@ func Bech32Decode(address string) ([]byte, error) {
 	copy(tmp, value)
 
 	ret := unecxtendPayload(tmp)
+	if ret == nil {
+		return nil, ErrorInvalidAddress
+	}
 	bytePayload := make([]byte, len(ret))
 
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
 	return bytePayload, nil
 }
-- 
2.43.0


From 7cf00be8e80ee984d57acf1b5fd36094cd173dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:41 +0000
Subject: [PATCH 77/77] fix: a transaction whose output script has a multi-byte
 length is refused instead of misread

The length byte 0xFD (0xFE, 0xFF) announces a two (four, eight) byte length; the
decoders took it for a length of 253 (254, 255) and read the output and all that
follows at the wrong place.
---
 bitcoincashTransaction/txStruct.go | 2 +-
 bitcoinsvTransaction/txStruct.go   | 2 +-
 btcTransaction/txStruct.go         | 2 +-
 cxcTransaction/txStruct.go         | 2 +-
 hcTransaction/txStruct.go          | 2 +-
 omniTransaction/txStruct.go        | 2 +-
 zencashTransaction/txStruct.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index b0e7a22..587ca85 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -272,7 +272,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 7689036..9b3227c 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -272,7 +272,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 29c92f7..7308558 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -251,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 5e76e57..78cca39 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -282,7 +282,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 9f7cda6..c45a0c3 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -251,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 7f58b29..7a92b22 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -251,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index f769506..bfddd92 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -251,7 +251,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		lockScriptLen := txBytes[index]
 		index++
 
-		if lockScriptLen == 0 {
+		if lockScriptLen == 0 || lockScriptLen >= 0xFD {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-- 
2.43.0


From 4a5d392b17b89633ec246a707a30461ba9f2f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:38 +0000
Subject: [PATCH 01/77] fix: reject RLP sizes beyond the input instead of
 allocating them

---
 common/codec/rlp.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..7725b7b 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -24,9 +24,10 @@ func sizeToBytes(s int) []byte {
 	return intconv.SizeToBytes(uint64(s))
 }
 
-func bytesToSize(bs []byte) int {
-	return int(intconv.BytesToSize(bs))
-}
+const (
+	maxSize       = uint64(^uint(0) >> 1)
+	readChunkSize = 64 * 1024
+)
 
 func (r *rlpReader) skipN(sz int) error {
 	if _, err := io.CopyN(ioutil.Discard, r.reader, int64(sz)); err != nil {
@@ -42,7 +43,28 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	size := intconv.BytesToSize(buffer)
+	if size > maxSize {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%d)", size)
+	}
+	return int(size), nil
+}
+
+// readN reads exactly sz bytes. The size comes from the input, so the buffer
+// grows with the data that is really there.
+func (r *rlpReader) readN(sz int) ([]byte, error) {
+	if sz <= readChunkSize {
+		buffer := make([]byte, sz)
+		return buffer, r.readAll(buffer)
+	}
+	buffer := bytes.NewBuffer(nil)
+	if _, err := io.CopyN(buffer, r.reader, int64(sz)); err != nil {
+		if err == io.EOF {
+			return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", sz, err)
+		}
+		return nil, cerrors.WithStack(err)
+	}
+	return buffer.Bytes(), nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -155,12 +177,11 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
+		buffer, err := r.readN(sz2)
+		if err != nil {
 			return nil, err
-		} else {
-			return buffer, nil
 		}
+		return buffer, nil
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -219,11 +240,13 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 }
 
 func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
+	more, err := r.readN(size)
+	if err != nil {
 		return nil, err
 	}
+	buffer := make([]byte, len(org)+size)
+	copy(buffer, org)
+	copy(buffer[len(org):], more)
 	return buffer, nil
 }
 
-- 
2.43.0


From b85577db77784e95efa3ae54b48303fe308c3e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:05 +0000
Subject: [PATCH 02/77] fix: reject an RLP list that ends before its declared
 size

---
 common/codec/rlp.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 7725b7b..1296004 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -118,6 +118,28 @@ func (r *rlpReader) Skip(cnt int) error {
 	return nil
 }
 
+// listReader reads the content of a list. The end of the list is io.EOF, but
+// the end of the input inside of the list is not.
+type listReader struct {
+	reader io.Reader
+	remain int64
+}
+
+func (r *listReader) Read(b []byte) (int, error) {
+	if r.remain <= 0 {
+		return 0, io.EOF
+	}
+	if int64(len(b)) > r.remain {
+		b = b[:r.remain]
+	}
+	n, err := r.reader.Read(b)
+	r.remain -= int64(n)
+	if err == io.EOF && r.remain > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func (r *rlpReader) readList() (Reader, error) {
 	var header [9]byte
 	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
@@ -130,7 +152,7 @@ func (r *rlpReader) readList() (Reader, error) {
 	case tag <= 0xF7:
 		size := tag - 0xC0
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(size)),
+			reader: &listReader{r.reader, int64(size)},
 		}, nil
 	default:
 		sz := tag - 0xF7
@@ -142,7 +164,7 @@ func (r *rlpReader) readList() (Reader, error) {
 			return nil, ErrNilValue
 		}
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(sz2)),
+			reader: &listReader{r.reader, int64(sz2)},
 		}, nil
 	}
 }
-- 
2.43.0


From 6fd00c1c62d166412903d392b99639a7c24279b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 03/77] fix: reject an empty address instead of panicking

---
 common/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..d2471a2 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
-- 
2.43.0


From ea28374a16da4611fbf2f50310fc16424c2aa942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 04/77] fix: clear the leading bytes of an address set from a
 short id

---
 common/address.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index d2471a2..228ad7d 100644
--- a/common/address.go
+++ b/common/address.go
@@ -98,7 +98,11 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
-		copy(a[AddressIDBytes-len(id)+1:], id)
+		bp := 1 + AddressIDBytes - len(id)
+		for i := 1; i < bp; i++ {
+			a[i] = 0
+		}
+		copy(a[bp:], id)
 	default:
 		copy(a[1:], id)
 	}
-- 
2.43.0


From be087c3dfad350d18b5eb7946a27b94e7a5b5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 05/77] fix: fill the right subtree before growing in
 MerkleBinaryTree.Add

---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From 648955cece9b664509d08fcaf7a7f85319ceba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:57 +0000
Subject: [PATCH 06/77] fix: skip the empty roots when an older accumulator
 verifies a newer witness

---
 common/mta/accumulator.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..aa29185 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -426,15 +426,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		return a.Verify(nws, h)
 	} else {
 		// acc: old, wit: new
-		depth := 0
-		for i := len(a.roots) - 1; i > 0; i-- {
-			bitFlag := int64(1) << uint(i)
-			if height < bitFlag {
-				depth = i
-				break
-			}
-			height -= bitFlag
-		}
+		depth := GetDepthByHeightAndAccLength(height, a.length)
 		return a.Verify(ws[:depth], h)
 	}
 }
-- 
2.43.0


From 1351d8dee1d681a6c1e360f1885f301158c5a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:29 +0000
Subject: [PATCH 07/77] fix: reject an MPT proof that does not end in a leaf
 instead of panicking

---
 common/mpt/mpt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 635d91f..f31a72a 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -39,6 +39,9 @@ func (n *MptNode) RLPDecodeSelf(d codec.Decoder) error {
 	}
 	switch len(bl) {
 	case 2:
+		if len(bl[0]) == 0 {
+			return fmt.Errorf("invalid empty header")
+		}
 		n.Header = &MptHeader{bl[0][0], bl[0][1:]}
 		if n.Header.IsLeaf() {
 			n.Data = bl[1]
@@ -82,6 +85,9 @@ func NewMptProof(bl [][]byte) (*MptProof, error) {
 Loop:
 	for i := 0; i < len(bl); i++ {
 		mn := mp.Nodes[i]
+		if i+1 == len(bl) && (mn.Header == nil || !mn.Header.IsLeaf()) {
+			return nil, fmt.Errorf("invalid proof, node[%d] has no leaf", i)
+		}
 		if mn.Header != nil {
 			if !mn.Header.IsLeaf() {
 				ml := mn.Link[0]
-- 
2.43.0


From 46bb021a9e4aefe4b9a8a83652ee2da8696cf918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 08/77] fix: reject an MPT proof with nodes behind its leaf

---
 common/mpt/mpt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index f31a72a..bd0a537 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -95,6 +95,8 @@ Loop:
 					return nil, fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
 				}
 				ml.ptr = &mp.Nodes[i+1]
+			} else if i+1 < len(bl) {
+				return nil, fmt.Errorf("invalid leaf[%d], not the last node", i)
 			}
 		} else {
 			for _, ml := range mn.Link {
-- 
2.43.0


From 684ddfa4c19944b0f8fd275a5bd31399ca43ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:54 +0000
Subject: [PATCH 09/77] fix: make ParseSignatureVRS keep V instead of panicking

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 3447307cad949d43057c6f3b41dcc6cbb34cb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 10/77] fix: reject malformed key store parameters instead of
 panicking

---
 common/wallet/keystore.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..b9e3e7b 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -194,6 +194,10 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if kdfParams.DKLen < 32 || kdfParams.R < 1 || kdfParams.P < 1 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d,r=%d,p=%d)",
+			kdfParams.DKLen, kdfParams.R, kdfParams.P)
+	}
 	key, err := kdfParams.Key(pw)
 	if err != nil {
 		return nil, err
@@ -214,6 +218,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV) != block.BlockSize() {
+		return nil, errors.Errorf("InvalidCipherParams(iv=%s)", cipherParams.IV)
+	}
 	secretBytes := make([]byte, len(cipheredBytes))
 
 	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())
-- 
2.43.0


From 083959c70757105e1b2001a22da4db61f9730da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:57 +0000
Subject: [PATCH 11/77] fix: refuse to share a secret with an invalid public
 key

---
 common/crypto/key.go    | 3 +++
 common/wallet/wallet.go | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 3a447f3..ea1f1e3 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -73,6 +73,9 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	case 0:
 		return nil, errors.New("public key bytes are empty")
 	case PublicKeyLenCompressed:
+		if pubKey[0]&^0x1 != publicKeyCompressed {
+			return nil, errors.New("wrong format")
+		}
 		return &PublicKey{pubKey}, nil
 	case PublicKeyLenUncompressed:
 		return &PublicKey{uncompToCompPublicKey(pubKey)}, nil
diff --git a/common/wallet/wallet.go b/common/wallet/wallet.go
index 911e146..b4355bc 100644
--- a/common/wallet/wallet.go
+++ b/common/wallet/wallet.go
@@ -1,6 +1,8 @@
 package wallet
 
 import (
+	"errors"
+
 	"github.com/icon-project/btp/common"
 	"github.com/icon-project/btp/common/crypto"
 )
@@ -38,7 +40,11 @@ func (w *softwareWallet) ECDH(pubKey []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return w.skey.ECDH(pkey), nil
+	secret := w.skey.ECDH(pkey)
+	if secret == nil {
+		return nil, errors.New("invalid public key")
+	}
+	return secret, nil
 }
 
 func New() *softwareWallet {
-- 
2.43.0


From 16fc77a27a6d500e6ab5e3fc743d9fd19c071044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:18 +0000
Subject: [PATCH 12/77] fix: return stored empty values and errors from badger
 buckets

---
 common/db/badger_db.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..24fa2ad 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,8 +74,12 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
+		}
+		v, err := item.ValueCopy(nil)
+		if err == nil {
+			value = nonNilBytes(v)
 		}
-		value, err = item.ValueCopy(nil)
 		return err
 	})
 	return value, err
-- 
2.43.0


From fe0734a75a77d590eb9fc72a5309e70c17d96089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:59 +0000
Subject: [PATCH 13/77] fix: do not panic on the code of a nil error

---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From 01ef6e7a5e022482711ee20d40f16ba92a8962d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 14/77] fix: report failed JSON-RPC calls whose body has no
 error object

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..f152e31 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response body")
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From 99fe28923ac5acecc4dc46cb26d5dce9c0231540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 15/77] fix: reject malformed addresses and hex bytes from a
 node instead of panicking

---
 chain/icon/client/type.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..06344b1 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -294,6 +294,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 || hs[:2] != "0x" {
+		return nil, fmt.Errorf("invalid prefix %s", hs)
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +330,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
-- 
2.43.0


From 7824c13ef1a9fce55e6a9a5df1f4681a8cee762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:23 +0000
Subject: [PATCH 16/77] fix: do not panic on a system error with a short
 message

---
 chain/icon/client/client.go | 4 ++--
 chain/icon/client/error.go  | 9 +++++++++
 chain/icon/sender.go        | 3 +--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..e1d7fca 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,7 +146,7 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := ParseSystemErrorCode(re.Message); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
@@ -523,7 +523,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := ParseSystemErrorCode(re.Message); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/client/error.go b/chain/icon/client/error.go
index 8b65d80..d8d1b67 100644
--- a/chain/icon/client/error.go
+++ b/chain/icon/client/error.go
@@ -18,6 +18,7 @@ package client
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/icon-project/btp/common/errors"
 )
@@ -82,6 +83,14 @@ var (
 	}
 )
 
+// ParseSystemErrorCode returns the code in a system error message of the form "E2000:...".
+func ParseSystemErrorCode(msg string) (int64, error) {
+	if len(msg) < 5 {
+		return 0, fmt.Errorf("no error code in message %q", msg)
+	}
+	return strconv.ParseInt(msg[1:5], 0, 32)
+}
+
 func NewRevertError(code int) error {
 	c := errors.Code(code)
 	if c >= CodeBTP {
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..6724e6e 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -232,7 +231,7 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.ParseSystemErrorCode(je.Message); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
 								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
-- 
2.43.0


From 3a22ee229cdc0b8e474fedb994985b1352a3c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:26 +0000
Subject: [PATCH 17/77] fix: keep the hash of a transaction the node already
 knows

---
 chain/icon/client/client.go | 2 +-
 chain/icon/sender.go        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index e1d7fca..ca523b4 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -151,7 +151,7 @@ txLoop:
 							case 2000: //DuplicateTransactionError
 								//Ignore
 								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 6724e6e..40d06eb 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -234,7 +234,8 @@ SignLoop:
 						if subEc, err := client.ParseSystemErrorCode(je.Message); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 8c3c8e71eae116d62833ab0f15880fb0c4b0d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:39 +0000
Subject: [PATCH 18/77] fix: do not report the start of an event monitor as an
 error

---
 chain/icon/client/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index ca523b4..204ea06 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -369,6 +369,8 @@ func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorEvent callback return err:%+v", err)
 			}
+		case WSEvent:
+			c.l.Debugf("MonitorEvent WSEvent %s %+v", conn.LocalAddr().String(), t)
 		case error:
 			errCb(conn, t)
 		default:
-- 
2.43.0


From 855a4cf90a58faeb2855a7f14368cfbc161cdf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:23 +0000
Subject: [PATCH 19/77] fix: do not hand a nil link status to the link when the
 query fails

---
 chain/icon/sender.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 40d06eb..fd1f8c6 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -144,7 +144,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From 55b956826b58b15042fb47fdecd6a213ac01d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 20/77] fix: do not panic on a failed transaction result
 without failure details

---
 chain/icon/sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index fd1f8c6..89ea2b0 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -273,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure with status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From 1530b47219f4fd23d710494248d633f2fe0c7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:34 +0000
Subject: [PATCH 21/77] fix: release the lock after a relay result instead of
 taking it again

---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..09a3a37 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -454,7 +454,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From 6cffbec1c97152f45d8a1bcbd5d55580c728f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 22/77] fix: remove an already verified relay message and
 tolerate an unknown one

---
 common/link/link.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 09a3a37..88c6a64 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -401,17 +401,14 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = l.rms[i+1:]
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
-- 
2.43.0


From 94256f2e8729daf619af4fdff0c72f17308d88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:40 +0000
Subject: [PATCH 23/77] fix: do not panic on a witness error for an unknown
 relay message

---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 88c6a64..6735efa 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -413,6 +413,9 @@ func (l *Link) removeRelayMessage(id int) {
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
+	if rm == nil {
+		return nil
+	}
 	l.buildProof(rm.bls, nil)
 	l.sendRelayMessage(rm.bls)
 	return nil
-- 
2.43.0


From 36d0d52a8c515cfe3998d63729d02dd187338108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:42 +0000
Subject: [PATCH 24/77] fix: report a receiver that cannot start instead of
 waiting forever

---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 6735efa..c703aff 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -128,6 +128,10 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
+		if err != nil {
+			errCh <- err
+			return
+		}
 		for {
 			select {
 			case rs := <-rsc:
-- 
2.43.0


From 716a8b3b774a83bbea7b0e07bf92167c9504c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 25/77] fix: end the loops of a link when their channels are
 closed

---
 common/link/link.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index c703aff..8e8057b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -134,7 +134,10 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 		}
 		for {
 			select {
-			case rs := <-rsc:
+			case rs, ok := <-rsc:
+				if !ok {
+					return
+				}
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
@@ -157,7 +160,10 @@ func (l *Link) senderChannel(errCh chan error) {
 
 		for {
 			select {
-			case sc := <-scc:
+			case sc, ok := <-scc:
+				if !ok {
+					return
+				}
 				switch t := sc.(type) {
 				case *types.RelayResult:
 					err := l.result(t)
-- 
2.43.0


From 4da5776edc06f3128971ba5e5544491e6d70145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:32 +0000
Subject: [PATCH 26/77] fix: keep an item list to build into after a relay
 message was sent

---
 common/link/link.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 8e8057b..913ccf7 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -387,10 +387,16 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			continue
+		}
 
 		rm := &relayMessage{
 			id:       rand.Int(),
@@ -402,7 +408,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
-- 
2.43.0


From b721f78576f81beaeea18a93667a20417812d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:35 +0000
Subject: [PATCH 27/77] fix: do not dereference a missing block update when the
 limit is reached

---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 913ccf7..8179a2f 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -315,7 +315,7 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		}
 		if l.isOverLimit(l.rmi.size) {
 			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
+			if bu != nil && bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
 				if err := l.buildBlockProof(bls, mh); err != nil {
-- 
2.43.0


From e2e6d73d93ed2da1d6fd2421377816df1fc812fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:38 +0000
Subject: [PATCH 28/77] fix: send a partial message proof before building the
 next one

---
 common/link/link.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 8179a2f..c5734da 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -308,12 +308,13 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		return nil
 	}
 	var mh int64
-	for {
+	for partial := false; ; partial = true {
 		//TODO refactoring
 		if rs.Seq() <= bls.RxSeq {
 			break
 		}
-		if l.isOverLimit(l.rmi.size) {
+		rxSeq := bls.RxSeq
+		if partial || l.isOverLimit(l.rmi.size) {
 			l.sendRelayMessage(bls)
 			if bu != nil && bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
@@ -339,6 +340,9 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 				return err
 			}
 		}
+		if bls.RxSeq == rxSeq {
+			return errors.Errorf("no message proof for height:%d seq:%d", bls.Verifier.Height, rxSeq+1)
+		}
 	}
 	return nil
 }
@@ -456,11 +460,7 @@ func (l *Link) searchRelayMessage(id int) *relayMessage {
 }
 
 func (l *Link) isOverLimit(size int64) bool {
-	if int64(l.s.TxSizeLimit()) < size {
-		l.createRelayMessageItem()
-		return true
-	}
-	return false
+	return int64(l.s.TxSizeLimit()) < size
 }
 
 func (l *Link) createRelayMessageItem() {
-- 
2.43.0


From fe5da413b4923ead75b0cc9aa4a353add91aa0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:40 +0000
Subject: [PATCH 29/77] fix: do not spin until the receiver has a block update

---
 common/link/link.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index c5734da..eb539ed 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -254,15 +254,7 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 }
 
 func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
-		}
-	}
+	return l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-- 
2.43.0


From 72a7067c25125fec928b0e9eac9ed1bd708b800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:43 +0000
Subject: [PATCH 30/77] fix: keep the message sequence when a block update is
 applied

---
 chain/ethbr/message.go       | 5 +++++
 chain/icon/bridge/message.go | 5 +++++
 chain/icon/btp2/message.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..0fc66b7 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -40,6 +40,11 @@ type blockUpdate struct {
 	targetHeight int64
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func (c *blockUpdate) SrcHeight() int64 {
 	return c.srcHeight
 }
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..3d9d1c8 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -59,6 +59,11 @@ type blockUpdate struct {
 	targetHeight int64
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func (c *blockUpdate) SrcHeight() int64 {
 	return c.srcHeight
 }
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..52de6c9 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -52,6 +52,11 @@ type blockUpdate struct {
 	targetHeight int64
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func (c *blockUpdate) SrcHeight() int64 {
 	return c.srcHeight
 }
-- 
2.43.0


From 9ce30df2494b52f5b94382863cea9b7b50bf2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 31/77] fix: set the size limit before the link handles its
 first block

---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index eb539ed..1eaa34b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -154,8 +154,8 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 }
 
 func (l *Link) senderChannel(errCh chan error) {
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
 
 		for {
-- 
2.43.0


From 13c4745affa17986ceccb1f4f9d92507d16c7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:40 +0000
Subject: [PATCH 32/77] fix: guard the state of a link against its two loops

---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 1eaa34b..d9a808a 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -138,11 +138,13 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 				if !ok {
 					return
 				}
+				l.rmsMtx.Lock()
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
 				l.rss = append(l.rss, rs)
 				l.BuildRelayMessage(bls)
+				l.rmsMtx.Unlock()
 			}
 		}
 
@@ -169,8 +171,10 @@ func (l *Link) senderChannel(errCh chan error) {
 					err := l.result(t)
 					errCh <- err
 				case *types.BMCLinkStatus:
+					l.rmsMtx.Lock()
 					l.clearRelayMessage(t)
 					l.clearReceiveStatus(t)
+					l.rmsMtx.Unlock()
 				default:
 					//TODO exception
 				}
-- 
2.43.0


From 334d9fc21ee33484f5f51f22ba265740d14bcff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:43 +0000
Subject: [PATCH 33/77] fix: do not relay a block before its receive status has
 arrived

---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index d9a808a..88e2d34 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -220,6 +220,10 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 
 	if len(bus) != 0 {
 		for _, bu := range bus {
+			// the receiver may be ahead of what the link was notified of
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				break
+			}
 			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
 			l.rmi.size += bu.Len()
 			err := bu.UpdateBMCLinkStatus(bls)
-- 
2.43.0


From bd2e3e96332667667656cb6e401016bbe3a9dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:45 +0000
Subject: [PATCH 34/77] fix: drop every receive status the link has passed

---
 chain/ethbr/receiver.go     | 7 ++++---
 chain/icon/bridge/bridge.go | 7 ++++---
 chain/icon/btp2/btp2.go     | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..ba075ac 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -179,11 +179,12 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
+	for len(e.rss) > 0 {
+		rs := e.rss[0]
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
 			return
 		}
+		e.rss = e.rss[1:]
 	}
 }
 
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..e62ef27 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -262,11 +262,12 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
+	for len(b.rss) > 0 {
+		rs := b.rss[0]
+		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {
 			return
 		}
+		b.rss = b.rss[1:]
 	}
 }
 
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..c8b0fa4 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -243,11 +243,12 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
+	for len(b.rss) > 0 {
+		rs := b.rss[0]
+		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {
 			return
 		}
+		b.rss = b.rss[1:]
 	}
 }
 
-- 
2.43.0


From 9e298007cb876da81c8812e49d5d76351894f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:13 +0000
Subject: [PATCH 35/77] fix: guard the receive statuses of the receivers
 against their monitors

---
 chain/ethbr/receiver.go     | 30 +++++++++++++++++++++++++-----
 chain/icon/bridge/bridge.go | 28 ++++++++++++++++++++++++----
 chain/icon/btp2/btp2.go     | 30 +++++++++++++++++++++++++-----
 3 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index ba075ac..0831a63 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"sync"
 	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
@@ -60,6 +61,7 @@ type ethbr struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -90,13 +92,29 @@ func (e *ethbr) Stop() {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
-	return e.rss[len(e.rss)-1], nil
+	rss := e.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
+}
+
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+	return append([]*receiveStatus(nil), e.rss...)
+}
+
+func (e *ethbr) addReceiveStatus(rs *receiveStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+	e.rss = append(e.rss, rs)
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -179,6 +197,8 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
 	for len(e.rss) > 0 {
 		rs := e.rss[0]
 		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
@@ -252,7 +272,7 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
-					e.rss = append(e.rss, rs)
+					e.addReceiveStatus(rs)
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -301,7 +321,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if seq <= rs.Seq() && seq >= rs.Seq() {
 			return rs
 		}
@@ -310,7 +330,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index e62ef27..100013f 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,6 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 	"unsafe"
 
 	"github.com/gorilla/websocket"
@@ -40,6 +41,7 @@ type bridge struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
 	startHeight int64
 }
@@ -116,7 +118,23 @@ func (b *bridge) Stop() {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
+}
+
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	return append([]*receiveStatus(nil), b.rss...)
+}
+
+func (b *bridge) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	b.rss = append(b.rss, rs)
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
@@ -131,7 +149,7 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -252,7 +270,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			b.rsc <- rs
@@ -262,6 +280,8 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
 	for len(b.rss) > 0 {
 		rs := b.rss[0]
 		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {
@@ -272,7 +292,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 }
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq >= rs.Seq() {
 			return rs
 		}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index c8b0fa4..4bff87b 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -63,6 +64,7 @@ type btp2 struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -146,7 +148,23 @@ func (b *btp2) Stop() {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
+}
+
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	return append([]*receiveStatus(nil), b.rss...)
+}
+
+func (b *btp2) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	b.rss = append(b.rss, rs)
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
@@ -161,7 +179,7 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -243,6 +261,8 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
 	for len(b.rss) > 0 {
 		rs := b.rss[0]
 		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {
@@ -306,7 +326,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
 		}
@@ -315,7 +335,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq >= rs.Seq() {
 			return rs
 		}
@@ -324,7 +344,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
-- 
2.43.0


From cada2ead1475fd4a5f77ae575512c18379d46426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:57 +0000
Subject: [PATCH 36/77] fix: number a partial BTP message proof by the messages
 it holds

---
 chain/icon/btp2/btp2.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 4bff87b..03a188a 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -217,26 +217,23 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if (bls.RxSeq - rs.seq) == 0 {
 		return nil, nil
 	}
-	if messageCnt > 0 {
-		for i := offset + 1; i < messageCnt; i++ {
-			p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
-			if err != nil {
-				return nil, err
-			}
-
-			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
-				return mp, nil
-			}
-		}
-	}
-
-	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))
+	// at least one message, and as many as fit in the limit
+	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(offset+1))
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
-	return mp, nil
+	last := offset + 1
+	for ; last < messageCnt; last++ {
+		np, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(last+1))
+		if err != nil {
+			return nil, err
+		}
+		if limit < int64(len(codec.RLP.MustMarshalToBytes(np))) {
+			break
+		}
+		p = np
+	}
+	return NewMessageProof(bls, bls.RxSeq+last-offset, *p), nil
 }
 
 func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
-- 
2.43.0


From 62d51a6ad3fcd8a8e1d29dd6f67635b68d308f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:00 +0000
Subject: [PATCH 37/77] fix: relay every message of a block in bridge mode

---
 chain/icon/bridge/bridge.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 100013f..a1d809a 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -48,7 +48,8 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
+	//sequence of the last message
+	seq := sn + int64(len(msgs)) - 1
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -177,15 +178,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && rmSize > 0 {
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)
 
 }
 
@@ -293,7 +294,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.receiveStatuses() {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
-- 
2.43.0


From 7e40a785f1841f723338d006adc9249c6608d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:02 +0000
Subject: [PATCH 38/77] fix: do not read the link status while the link changes
 it

---
 chain/icon/bridge/bridge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index a1d809a..1798c47 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -249,6 +249,8 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}
 	//BMC.seq starts with 1 and BTPBlock.FirstMessageSN starts with 0
 	offset += 1
+	//the link advances bs while the monitor runs
+	rxSeq := bs.RxSeq
 
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
 		h, err := base64.StdEncoding.DecodeString(v.Header)
@@ -267,7 +269,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			}
 			sn := offset + bh.UpdateNumber>>1
 
-			rs, err := newReceiveStatus(bh.MainHeight, bs.RxSeq, sn, msgs, b.dst)
+			rs, err := newReceiveStatus(bh.MainHeight, rxSeq, sn, msgs, b.dst)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e3c27d09e3f444f6836a621ce87b295bb192e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 39/77] fix: relay every message of an Ethereum block that
 holds several

---
 chain/ethbr/receiver.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 0831a63..3f829a2 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -130,15 +130,13 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 	var seq int
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
-	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
-	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
+	if len(rs.rps) > 0 {
+		for i := range rs.rps {
 			trp := &client.ReceiptProof{
 				Index:  rs.rps[i].Index,
 				Events: make([]*client.Event, 0),
@@ -147,21 +145,19 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 			rps = append(rps, trp)
 
 			for _, e := range rs.rps[i].Events {
+				if e.Sequence.Int64() <= bls.RxSeq {
+					continue
+				}
 				size := sizeOfEvent(e)
 
 				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
+					return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
 				}
 				trp.Events = append(trp.Events, e)
 				seq += 1
 				rmSize += size
 			}
 
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
-			}
-
 			//remove last receipt if empty
 			if len(trp.Events) == 0 {
 				rps = rps[:len(rps)-1]
@@ -322,7 +318,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.receiveStatuses() {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq >= rs.rps[0].Events[0].Sequence.Int64() {
 			return rs
 		}
 	}
-- 
2.43.0


From 9fee8162df3fe6fdb4adba93ae9faeb4589baa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:08 +0000
Subject: [PATCH 40/77] fix: do not panic on an event log that does not unpack

---
 chain/ethbr/receiver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 3f829a2..4e577a5 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -231,11 +231,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
-- 
2.43.0


From aed472a6fcf91d8bdf0d561c7aad40980ac786c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:10 +0000
Subject: [PATCH 41/77] fix: do not hand a nil Ethereum link status to the link
 when the query fails

---
 chain/ethbr/sender.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..ba5e304 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From 7429149157960a24694de6ce2c3eae8045c50a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:13 +0000
Subject: [PATCH 42/77] fix: do not panic when a reverted transaction succeeds
 on replay

---
 chain/ethbr/client/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..95cf321 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -350,8 +350,10 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 	}
 
 	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if err == nil {
+		return "", nil
+	}
 	return err.Error(), nil
-
 }
 
 func NewClient(uri string, l log.Logger) *Client {
-- 
2.43.0


From 80b5294880335e91c8209826f0b22c97a1c537e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 43/77] fix: report a transaction that could not be sent

---
 chain/ethbr/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 95cf321..f9cde5d 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
-- 
2.43.0


From e06d278be715c7b4284a42f817fa5782458cc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 44/77] fix: measure an event by its size instead of the size
 of a pointer

---
 chain/ethbr/receiver.go     | 3 +--
 chain/icon/bridge/bridge.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 4e577a5..2f514a5 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -8,7 +8,6 @@ import (
 	"math/big"
 	"sort"
 	"sync"
-	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -372,5 +371,5 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 }
 
 func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
+	return len(codec.RLP.MustMarshalToBytes(rp))
 }
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 1798c47..c5ac053 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"fmt"
 	"sync"
-	"unsafe"
 
 	"github.com/gorilla/websocket"
 
@@ -315,7 +314,7 @@ func (b *bridge) setStartHeight() error {
 }
 
 func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
+	return len(codec.RLP.MustMarshalToBytes(rp))
 }
 
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
-- 
2.43.0


From d478ec564a78c5b41ce7d55dd2a914e1d6149a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 45/77] fix: recognise a raw JSON setting by its type instead
 of its name

---
 common/cli/helper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/cli/helper.go b/common/cli/helper.go
index dfc0b21..671d466 100644
--- a/common/cli/helper.go
+++ b/common/cli/helper.go
@@ -266,11 +266,14 @@ func StringToStringConv(val string) (map[string]interface{}, error) {
 	return out, nil
 }
 
+// rawMessageType is compared instead of its name, which differs between versions of Go
+var rawMessageType = reflect.TypeOf(json.RawMessage{})
+
 func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 	c.TagName = "json"
 	c.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 		func(inputValType reflect.Type, outValType reflect.Type, input interface{}) (interface{}, error) {
-			if outValType.Name() == "RawMessage" {
+			if outValType == rawMessageType {
 				if inputValType.Kind() == reflect.Map && inputValType.Key().Kind() == reflect.String {
 					return json.Marshal(input)
 				} else if inputValType.Kind() == reflect.String {
@@ -282,7 +285,7 @@ func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 				}
 			} else if inputValType.Kind() == reflect.String && outValType.Kind() == reflect.Map {
 				m, err := StringToStringConv(input.(string))
-				if outValType.Key().Kind() == reflect.String && outValType.Elem().Name() == "RawMessage" {
+				if outValType.Key().Kind() == reflect.String && outValType.Elem() == rawMessageType {
 					m2 := make(map[string]json.RawMessage)
 					for k, v := range m {
 						if s, ok := v.(string); ok {
-- 
2.43.0


From effa7e18eae64b8df50a6c71b2825bc7d3a5e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:25 +0000
Subject: [PATCH 46/77] fix: do not save the directory of the configuration as
 the log file

---
 cmd/relay/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..78956ab 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -230,7 +230,7 @@ func main() {
 			cfg.FilePath, _ = filepath.Abs(saveFilePath)
 			cfg.BaseDir = cfg.ResolveRelative(cfg.BaseDir)
 
-			if cfg.LogWriter != nil {
+			if cfg.LogWriter != nil && cfg.LogWriter.Filename != "" {
 				cfg.LogWriter.Filename = cfg.ResolveRelative(cfg.LogWriter.Filename)
 			}
 
-- 
2.43.0


From 80b1177e4362103f672c5545643972a6b23a7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 47/77] fix: keep the error of a link that ends before it is
 waited for

---
 cmd/relay/linkfatory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..bdb2df4 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -17,7 +17,7 @@ import (
 
 func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modLevels map[string]string) error {
 	var err error
-	linkErrCh := make(chan error)
+	linkErrCh := make(chan error, 2) // one per link, which may end before it is waited for
 
 	switch cfg.Direction {
 	case FrontDirection:
-- 
2.43.0


From 7f1b515ded74f915d2de7b5813581d10caa40197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 48/77] fix: report a source key secret that cannot be read

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 78956ab..098a8bf 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From 67106dea0807f34736a42d1ec053dc6b41b05a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:31 +0000
Subject: [PATCH 49/77] fix: do not subtract the sequence offset from the
 message number of the source network

---
 .../foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
index a54d5f4..e54b2ba 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
@@ -137,8 +137,7 @@ public class BTPMessageVerifier implements BMV {
         var prev = blockHeader.getPrev();
         var firstMessageSn = bmvProperties.getLastFirstMessageSN();
         var messageCount = bmvProperties.getLastMessageCount();
-        var seqOffset = bmvProperties.getSequenceOffset();
-        var messageSn = firstMessageSn.add(messageCount).subtract(seqOffset);
+        var messageSn = firstMessageSn.add(messageCount);
         if (messageSn.compareTo(blockHeader.getFirstMessageSn()) > 0) {
             throw BMVException.alreadyVerified("already verified");
         } else if (messageSn.compareTo(blockHeader.getFirstMessageSn()) < 0) {
-- 
2.43.0


From 1d995387f280026e07ade08edc9c532020052fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:50 +0000
Subject: [PATCH 50/77] fix: hash along the whole path from the network section
 to the root

---
 .../java/foundation/icon/btp/bmv/btpblock/BlockHeader.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
index 9870a9d..eda81c1 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
@@ -159,9 +159,9 @@ public class BlockHeader {
         byte[] h = leaf;
         for (NetworkSectionToRoot nsRoot : networkSectionToRoot) {
             if (nsRoot.dir == NetworkSectionToRoot.LEFT) {
-                h = concatAndHash(nsRoot.value, leaf);
+                h = concatAndHash(nsRoot.value, h);
             } else if (nsRoot.dir == NetworkSectionToRoot.RIGHT) {
-                h = concatAndHash(leaf, nsRoot.value);
+                h = concatAndHash(h, nsRoot.value);
             }
         }
         return h;
-- 
2.43.0


From 9d1d31de6a1ded25d1b6b8f6e76648086868927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:55 +0000
Subject: [PATCH 51/77] fix: refuse a message proof with less than one leaf in
 a node

---
 .../src/main/java/foundation/icon/btp/bmv/btpblock/Node.java   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Node.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Node.java
index b778a79..3218d77 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Node.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Node.java
@@ -45,6 +45,9 @@ public class Node {
     }
 
     Node add(int numOfLeaf, byte[] value) {
+        if (numOfLeaf < 1) {
+            throw BMVException.unknown("invalid numOfLeaf, value: " + numOfLeaf);
+        }
         if (level == LEVEL_INIT) {
             level = numberToLevel(numOfLeaf);
             this.numOfLeaf = numOfLeaf;
-- 
2.43.0


From 6321bdd5f3b4dc8100786eb09f1902025048d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:42 +0000
Subject: [PATCH 52/77] fix: return every message of a relay message in the
 bridge verifier

---
 .../java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
index 5f1f99d..de7da21 100644
--- a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
+++ b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
@@ -78,7 +78,7 @@ public class BTPMessageVerifier implements BMV {
         byte[][] ret = new byte[msgs.size()][];
         int i = 0;
         for (byte[] msg : msgs) {
-            ret[i] = msg;
+            ret[i++] = msg;
         }
         return ret;
     }
-- 
2.43.0


From fcc4b8ed08df73b848c219effad029c82f392de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:55 +0000
Subject: [PATCH 53/77] fix: return every message of a relay message in the
 ICON verifier

---
 .../java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
index 42fd666..8d0eba0 100644
--- a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
+++ b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
@@ -133,7 +133,7 @@ public class BTPMessageVerifier implements BMV {
                 ret = new byte[msgs.size()][];
                 int i = 0;
                 for (byte[] msg : msgs) {
-                    ret[i] = msg;
+                    ret[i++] = msg;
                 }
             }
         }
-- 
2.43.0


From 8ae4184be8eb14fe688cbcaeee0b1478a438741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 54/77] fix: collect the remaining fee of a failed one-way
 message or response once

---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f97ceac..860a576 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -575,7 +575,10 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                         emitMessageDropped(prev, rxSeq, msg, e2);
                     }
                 } else {
-                    collectRemainFee(msg.getFeeInfo());
+                    //if the message is for this network, handleMessage has collected already
+                    if (!btpAddr.net().equals(msg.getDst())) {
+                        collectRemainFee(msg.getFeeInfo());
+                    }
                     emitMessageDropped(prev, rxSeq, msg, e);
                 }
             }
-- 
2.43.0


From ad817f77254418cf4a052d2db02429fdcce5affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 55/77] fix: report the revert of a service as such whatever
 its code is

---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 860a576..7196b4c 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -799,12 +799,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             return new ResponseMessage(ResponseMessage.CODE_SUCCESS, "");
         }
         long code = ResponseMessage.CODE_UNKNOWN;
-        if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
+        if (BTPException.Type.BSH.equals(exception.getType())) {
+            code = ResponseMessage.CODE_BSH_REVERT;
+        } else if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_ROUTE;
         } else if (BMCException.Code.NotExistsBSH.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_BSH;
-        } else if (BTPException.Type.BSH.equals(exception.getType())) {
-            code = ResponseMessage.CODE_BSH_REVERT;
         }
         return new ResponseMessage(code, exception.getMessage());
     }
-- 
2.43.0


From d867d318c9a6e0372913aa4fa6f5a5b793ef572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 56/77] fix: remove every relay of a link that is removed

---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 7196b4c..1fd0ab2 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -251,7 +251,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             throw BMCException.unknown("could not remove, referred by route");
         }
         ArrayDB<Address> arrayDB = relays.at(_link);
-        for(int i = 0; i < arrayDB.size(); i++ ) {
+        while (arrayDB.size() > 0) {
             arrayDB.removeLast();
         }
         BigInteger networkId = btpLinkNetworkIds.get(_link);
-- 
2.43.0


From f16587724581652a2e9e35b23ee4f0620e078fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 57/77] fix: collect the remaining fee of a one-way message
 that is dropped

---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 1fd0ab2..521faaa 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -1006,6 +1006,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
         if (snCompare > 0) {
             sendError(prev, assumeMsg, e);
         } else {
+            collectRemainFee(assumeMsg.getFeeInfo());
             emitMessageDropped(prev, _seq, assumeMsg, e);
         }
     }
-- 
2.43.0


From 3ff3dc0e1915d89f07688c8feb53063586fe88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:33 +0000
Subject: [PATCH 58/77] fix: do not keep the reward of a claim whose response
 could not be sent

---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 521faaa..4eb53b5 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -648,13 +648,8 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 ClaimMessage claimMsg = ClaimMessage.fromBytes(payload);
                 BigInteger reward = claimMsg.getAmount();
                 Address receiver = toAddress(claimMsg.getReceiver());
+                sendInternalResponse(src, nsn);
                 addReward(receiver, btpAddr.net(), reward);
-                try {
-                    sendInternalResponse(src, nsn);
-                } catch (Exception e) {
-                    addReward(receiver, btpAddr.net(), reward.negate());
-                    throw e;
-                }
                 break;
             case Response:
                 ResponseMessage responseMsg = ResponseMessage.fromBytes(payload);
-- 
2.43.0


From 8dc167a6043deb36e5412bf058ca26ceb0d919d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:11 +0000
Subject: [PATCH 59/77] fix: pay every amount of the native coin of a request

---
 .../java/foundation/icon/btp/nativecoin/NativeCoinService.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
index c39b659..bef465f 100644
--- a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
+++ b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
@@ -471,7 +471,8 @@ public class NativeCoinService implements NCS, IRC31Receiver, BSH, OwnerManager
                 coinNames.add(coinName);
                 amounts.add(amount);
             } else if (name.equals(coinName)) {
-                nativeCoinTransferAmount = amount;
+                nativeCoinTransferAmount = nativeCoinTransferAmount == null ?
+                        amount : nativeCoinTransferAmount.add(amount);
             } else {
                 throw NCSException.unknown("Invalid Token");
             }
-- 
2.43.0


From 9d13866edd2e01046926dd2f028010b99477c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:09 +0000
Subject: [PATCH 60/77] fix: encode the length of 65536 bytes and more in the
 right order in pyscore

---
 pyscore/lib/icon/rlp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyscore/lib/icon/rlp.py b/pyscore/lib/icon/rlp.py
index 406f7e5..68e5b35 100644
--- a/pyscore/lib/icon/rlp.py
+++ b/pyscore/lib/icon/rlp.py
@@ -48,8 +48,7 @@ def rlp_encode_bytes(bs: bytes) -> bytes:
     # buf[0] = 0x80+55+slen & 0xFF
     buf.insert(0, 0xB7+slen & 0xFF)
     while slen > 0:
-        # buf[slen] = blen & 0xFF
-        buf.insert(slen, blen & 0xFF)
+        buf.insert(1, blen & 0xFF)
         blen >>= 8
         slen -= 1
     return bytes(buf) + bs
@@ -72,7 +71,7 @@ def rlp_encode_list_with_encoded(l: list) -> bytes:
     # buf[0] = 0xC0+55+slen & 0xFF
     buf.insert(0, 0xF7+slen & 0xFF)
     while slen > 0:
-        buf.insert(slen, blen & 0xFF)
+        buf.insert(1, blen & 0xFF)
         blen >>= 8
         slen -= 1
 
-- 
2.43.0


From cde70de3a578e6356a4f7ef6f7d65e5c838a2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:09 +0000
Subject: [PATCH 61/77] fix: verify a newer witness by the index of the node in
 pyscore

---
 pyscore/lib/icon/mta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/mta.py b/pyscore/lib/icon/mta.py
index 6f84f9a..c709538 100644
--- a/pyscore/lib/icon/mta.py
+++ b/pyscore/lib/icon/mta.py
@@ -199,7 +199,7 @@ class MerkleTreeAccumulator(Serializable):
 
             root_idx = self.get_root_idx_by_height(height)
             root = self.get_root(root_idx)
-            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height)
+            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height - 1 - self.__offset)
         else:
             # acc: new, wit: old
             # rebuild witness is not supported, but able to verify by cache if enabled
-- 
2.43.0


From b219f3ee6e663f91011bb27ebe1eaacc81598a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:09 +0000
Subject: [PATCH 62/77] fix: load the list of keys that is a single letter in
 pyscore

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index ca323bc..635eb65 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -94,7 +94,7 @@ class IterableDictDB(ABC):
     def _load_keys(self) -> list:
         if not self.__is_loaded_keys:
             serialized = self.__db_keys.get()
-            if len(serialized) > 1:
+            if len(serialized) > 0:
                 self.__keys = serialized.split(",")
             self.__is_loaded_keys = True
         return self.__keys
-- 
2.43.0


From a6fa3ec1b5f84706a30ca841555a8f1859bc08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:09 +0000
Subject: [PATCH 63/77] fix: remove every entry of a dictionary in pyscore

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index 635eb65..15caaf5 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -212,7 +212,7 @@ class IterableDictDB(ABC):
                 self.__db.remove(key)
 
     def remove_all(self):
-        for k in self.keys():
+        for k in list(self.keys()):
             self.remove(k)
 
     def _contains(self, key: str) -> bool:
-- 
2.43.0


From 8a62203724ebf98573d61d9ac184f6db1484fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:09 +0000
Subject: [PATCH 64/77] fix: remove an entry that was added in the same
 transaction in pyscore

---
 pyscore/lib/icon/db.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index 15caaf5..1112cf5 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -190,20 +190,21 @@ class IterableDictDB(ABC):
     def remove(self, key) -> None:
         key = str(key)
         if key in self.__add:
-            self.__add.pop(key)
-            return
+            v = self.__add.pop(key)
+            self._remove_key(key)
         elif key in self.__remove:
             return
-        elif key in self.__update:
-            self.__update.pop(key)
+        else:
+            if key in self.__update:
+                self.__update.pop(key)
 
-        v = self._cache(key)
-        if v is None:
-            return
+            v = self._cache(key)
+            if v is None:
+                return
 
-        self._remove_key(key)
-        self.__remove[key] = v
-        self.__cache.pop(key)
+            self._remove_key(key)
+            self.__remove[key] = v
+            self.__cache.pop(key)
 
         if isinstance(v, IterableDictDB) or isinstance(v, PropertiesDB):
             v.remove_all()
-- 
2.43.0


From f18d29064b78918831ab2d373b218cb593e12de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 65/77] fix: read the monitor connections of the ICON client
 under their lock

The reading loop of a monitor and CloseAllMonitor used the map of connections
without the lock under which other monitors add and remove theirs.
---
 chain/icon/client/client.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 204ea06..6ff47d3 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -404,7 +404,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
+	c.mtx.Lock()
+	conns := make([]*websocket.Conn, 0, len(c.conns))
 	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	c.mtx.Unlock()
+	for _, conn := range conns {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
@@ -431,6 +437,14 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	}
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
 type wsConnectError struct {
 	error
 	httpResp *http.Response
@@ -501,7 +515,7 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
-- 
2.43.0


From c8b3e7c9ca10341577af6f38f453edf420b50bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:15 +0000
Subject: [PATCH 66/77] fix: leave unfinished nested lists when the decoder
 goes on

Going on after a list closed the reader of that list only: an unfinished list
inside of it was not left first, so MessagePack took the rest of the inner list
for elements of the outer one.
---
 common/codec/codec.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/common/codec/codec.go b/common/codec/codec.go
index 5424cf6..01b7a55 100644
--- a/common/codec/codec.go
+++ b/common/codec/codec.go
@@ -356,7 +356,7 @@ func (e *encoderImpl) EncodeListOf(objs ...interface{}) error {
 
 type decoderImpl struct {
 	real  Reader
-	child Reader
+	child *decoderImpl
 }
 
 func (d *decoderImpl) decodeList() (*decoderImpl, error) {
@@ -364,8 +364,8 @@ func (d *decoderImpl) decodeList() (*decoderImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.child = reader
-	return &decoderImpl{real: reader}, nil
+	d.child = &decoderImpl{real: reader}
+	return d.child, nil
 }
 
 func (d *decoderImpl) decodeMap() (*decoderImpl, error) {
@@ -373,14 +373,17 @@ func (d *decoderImpl) decodeMap() (*decoderImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.child = reader
-	return &decoderImpl{real: reader}, nil
+	d.child = &decoderImpl{real: reader}
+	return d.child, nil
 }
 
 func (d *decoderImpl) flush() error {
 	if child := d.child; child != nil {
 		d.child = nil
-		return child.Close()
+		if err := child.flush(); err != nil {
+			return err
+		}
+		return child.real.Close()
 	}
 	return nil
 }
-- 
2.43.0


From 331ab6bd3b6e2d7ea074fd37c8cdbc83de74cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:39 +0000
Subject: [PATCH 67/77] fix: guard the settings of the log against the lines
 being written

The settings are made again for the second link of the program while the first
one is already writing to the log: the map of module levels and the file
writer were changed without a lock.
---
 common/log/filter.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/common/log/filter.go b/common/log/filter.go
index 58aaa54..dbc8990 100644
--- a/common/log/filter.go
+++ b/common/log/filter.go
@@ -2,11 +2,13 @@ package log
 
 import (
 	"io"
+	"sync"
 
 	"github.com/sirupsen/logrus"
 )
 
 type logFilter struct {
+	mtx          sync.RWMutex
 	formatter    logrus.Formatter
 	defaultLevel Level
 	moduleLevels map[string]Level
@@ -25,6 +27,9 @@ func newLogFilter(formatter logrus.Formatter) *logFilter {
 }
 
 func (f *logFilter) Format(e *logrus.Entry) ([]byte, error) {
+	f.mtx.RLock()
+	defer f.mtx.RUnlock()
+
 	level := f.defaultLevel
 
 	var module string
@@ -56,10 +61,16 @@ func (f *logFilter) Format(e *logrus.Entry) ([]byte, error) {
 }
 
 func (f *logFilter) SetModuleLevel(module string, level Level) {
+	f.mtx.Lock()
+	defer f.mtx.Unlock()
+
 	f.moduleLevels[module] = level
 }
 
 func (f *logFilter) GetModuleLevel(module string) Level {
+	f.mtx.RLock()
+	defer f.mtx.RUnlock()
+
 	if lv, ok := f.moduleLevels[module]; ok {
 		return lv
 	} else {
@@ -68,15 +79,24 @@ func (f *logFilter) GetModuleLevel(module string) Level {
 }
 
 func (f *logFilter) SetDefaultLevel(level Level) {
+	f.mtx.Lock()
+	defer f.mtx.Unlock()
+
 	f.defaultLevel = level
 }
 
 func (f *logFilter) GetDefaultLevel() Level {
+	f.mtx.RLock()
+	defer f.mtx.RUnlock()
+
 	return f.defaultLevel
 }
 
 // SetFileWriter set file writer
 func (f *logFilter) SetFileWriter(writer io.Writer) error {
+	f.mtx.Lock()
+	defer f.mtx.Unlock()
+
 	f.fileWriter = writer
 	return nil
 }
-- 
2.43.0


From ad7ac86e92e4365c21061c28462d75d9735ba060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:41 +0000
Subject: [PATCH 68/77] fix: add the log forwarder once when relaying in both
 directions

The loggers of the two links share their hooks, so every line was forwarded
twice.
---
 cmd/relay/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 098a8bf..eb801f3 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -24,6 +24,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/spf13/cobra"
 
@@ -317,6 +318,9 @@ func main() {
 	}
 }
 
+// addForwarder is for the forwarder, which the loggers of both links share
+var addForwarder sync.Once
+
 func setLogger(cfg *Config, w wallet.Wallet, modLevels map[string]string) log.Logger {
 	l := log.WithFields(log.Fields{log.FieldKeyWallet: w.Address()[2:]})
 	log.SetGlobalLogger(l)
@@ -362,9 +366,11 @@ func setLogger(cfg *Config, w wallet.Wallet, modLevels map[string]string) log.Lo
 		if cfg.LogForwarder.Vendor == "" && cfg.LogForwarder.Address == "" {
 			log.Debugln("LogForwarderConfig vendor and address is empty string, will be ignore")
 		} else {
-			if err := log.AddForwarder(cfg.LogForwarder); err != nil {
-				log.Fatalf("Invalid log_forwarder err:%+v", err)
-			}
+			addForwarder.Do(func() {
+				if err := log.AddForwarder(cfg.LogForwarder); err != nil {
+					log.Fatalf("Invalid log_forwarder err:%+v", err)
+				}
+			})
 		}
 	}
 
-- 
2.43.0


From d7ffd945317e3e9315f51e45a8a29489d362d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:58 +0000
Subject: [PATCH 69/77] fix: reject proof nodes without leaves in a binary tree
 proof

---
 common/mbt/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/mbt/proof.go b/common/mbt/proof.go
index 4616107..219c90b 100644
--- a/common/mbt/proof.go
+++ b/common/mbt/proof.go
@@ -135,6 +135,14 @@ func (m *MerkleBinaryTree) Proof(begin, end int) (*MerkleBinaryTreeProof, error)
 }
 
 func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error) {
+	for _, l := range [][]ProofNode{p.ProofInLeft, p.ProofInRight} {
+		for _, n := range l {
+			if n.NumOfLeaf < 1 {
+				err = fmt.Errorf("invalid numOfLeaf, value: %d", n.NumOfLeaf)
+				return
+			}
+		}
+	}
 	r := &node{hashFunc: p.hashFunc}
 	for _, n := range p.ProofInLeft {
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
-- 
2.43.0


From 3680c4adaecb6a3402d9c361d892f02417b4a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:14 +0000
Subject: [PATCH 70/77] fix: btp2 save writes the key stores to the files it is
 given

---
 cmd/relay/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index eb801f3..f6c1fc8 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -257,7 +257,8 @@ func main() {
 		},
 	}
 	rootCmd.AddCommand(saveCmd)
-	saveCmd.Flags().String("save_key_store", "", "KeyStore File path to save")
+	saveCmd.Flags().String("save_src_key_store", "", "Source KeyStore File path to save")
+	saveCmd.Flags().String("save_dst_key_store", "", "Destination KeyStore File path to save")
 
 	startCmd := &cobra.Command{
 		Use:   "start",
-- 
2.43.0


From de4c68d7bd2b5ce7aab8bcee9b6765eaa4a92a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 71/77] fix: an accumulator has no node or witness before its
 first

---
 common/mta/accumulator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index aa29185..3430d10 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -374,6 +374,9 @@ func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness
 	if w, err = a.WitnessFor(idx); err != nil {
 		return nil, err
 	}
+	if idx >= accLength {
+		return nil, errors.ErrNotFound
+	}
 	depth := GetDepthByHeightAndAccLength(idx, accLength)
 	return w[:depth], nil
 }
@@ -432,7 +435,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From face345af0ad352ea87664802e5b76b5c920709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 72/77] fix: an accumulator rejects hashes of another size

---
 common/mta/accumulator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 3430d10..bbff03f 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -384,7 +384,13 @@ func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness
 func (a *Accumulator) Verify(ws []Witness, h []byte) error {
 	buf := make([]byte, HashSize*2)
 	height := 0
+	if len(h) != HashSize {
+		return errors.IllegalArgumentError.New("InvalidWitness invalid hash size")
+	}
 	for _, w := range ws {
+		if len(w.HashValue) != HashSize {
+			return errors.IllegalArgumentError.New("InvalidWitness invalid hash size")
+		}
 		if w.Direction == Left {
 			copy(buf, w.HashValue)
 			copy(buf[HashSize:], h)
-- 
2.43.0


From 9d59cb931918b21b0d92766871d04a3e2c067aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 73/77] fix: a forged witness for another length does not stop
 the accumulator

---
 common/mta/accumulator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index bbff03f..7a447d9 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -420,6 +420,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	}
 
 	height := GetHeightFromWitness(ws, accLength)
+	if height < 0 {
+		return errors.IllegalArgumentError.New("InvalidWitness invalid height")
+	}
 	if height >= a.length {
 		return errors.IllegalArgumentError.New("InvalidWitness newer node")
 	}
@@ -429,6 +432,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too many hashes")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
@@ -436,6 +442,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	} else {
 		// acc: old, wit: new
 		depth := GetDepthByHeightAndAccLength(height, a.length)
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too few hashes")
+		}
 		return a.Verify(ws[:depth], h)
 	}
 }
-- 
2.43.0


From 3330c3b3fd3a0b6d1bccdbcf6c6cd581cfc595c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:54 +0000
Subject: [PATCH 74/77] fix: the ICON receivers leave out no block whose
 messages cannot be read at once

---
 chain/icon/bridge/bridge.go | 10 ++++++++--
 chain/icon/btp2/btp2.go     | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index c5ac053..8901b91 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/gorilla/websocket"
 
@@ -15,6 +16,8 @@ import (
 	"github.com/icon-project/btp/common/types"
 )
 
+const DefaultGetMessageRetryInterval = time.Second
+
 type receiveStatus struct {
 	height int64
 	seq    int64
@@ -263,8 +266,11 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 		}
 		if bh.MainHeight != b.startHeight {
 			msgs, err := b.getBtpMessage(bh.MainHeight)
-			if err != nil {
-				return err
+			for err != nil {
+				//the messages of a block must not be left out
+				b.l.Debugf("retry to get messages height:%d err:%+v", bh.MainHeight, err)
+				time.Sleep(DefaultGetMessageRetryInterval)
+				msgs, err = b.getBtpMessage(bh.MainHeight)
 			}
 			sn := offset + bh.UpdateNumber>>1
 
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 03a188a..9fd3e3a 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/gorilla/websocket"
 
@@ -16,6 +17,8 @@ import (
 	"github.com/icon-project/btp/common/types"
 )
 
+const DefaultGetMessageRetryInterval = time.Second
+
 type receiveStatus struct {
 	height int64
 	seq    int64
@@ -313,8 +316,11 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 		}
 		if bh.MainHeight != b.startHeight {
 			msgs, err := b.getBtpMessage(bh.MainHeight)
-			if err != nil {
-				return err
+			for err != nil {
+				//the messages of a block must not be left out
+				b.l.Debugf("retry to get messages height:%d err:%+v", bh.MainHeight, err)
+				time.Sleep(DefaultGetMessageRetryInterval)
+				msgs, err = b.getBtpMessage(bh.MainHeight)
 			}
 
 			b.seq += int64(len(msgs))
-- 
2.43.0


From bb749cce6f2d541b29a062df18d080c579c7cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:34 +0000
Subject: [PATCH 75/77] fix: fee aggregation takes no negative duration

---
 .../src/main/java/foundation/icon/btp/FeeAggregationSCORE.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 7e10a14..2ce9961 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -174,7 +174,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         if (!Context.getCaller().equals(Context.getOwner())) {
             Context.revert(ErrorCode.PERMISSION_DENIED, "permission denied");
         }
-        if (_duration.equals(BigInteger.ZERO)) {
+        if (_duration.compareTo(BigInteger.ZERO) <= 0) {
             Context.revert(ErrorCode.INVALID_VALUE, "_duration is invalid, must > 0");
         }
 
-- 
2.43.0


From 6d28227021110ce1476732c3095d1f4fe3fcce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:34 +0000
Subject: [PATCH 76/77] fix: fee aggregation takes no deposit of nothing, which
 listed its depositor twice

---
 .../src/main/java/foundation/icon/btp/FeeAggregationSCORE.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 2ce9961..44f4a0a 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -287,6 +287,9 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         }
 
         BigInteger value = Context.getValue();
+        if (value.compareTo(BigInteger.ZERO) <= 0) {
+            Context.revert(ErrorCode.INVALID_VALUE, "deposit amount is invalid, must > 0");
+        }
 
         long now = Context.getBlockTimestamp();
         Syndication syndication = getSafeSyndication(_tokenName);
-- 
2.43.0


From 1bdcf754b8a27576190d6d75aa6652b7766197de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:34 +0000
Subject: [PATCH 77/77] fix: fee aggregation keeps the coins it has to refund

---
 .../icon/btp/FeeAggregationSCORE.java         | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 44f4a0a..a13ff23 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -447,18 +447,24 @@ public class FeeAggregationSCORE extends IRC31Receiver {
             Context.revert(ErrorCode.INVALID_TOKEN_BALANCE, "not enough token");
         }
 
-        // Send ICX to CPS
-        if (!_syndication.totalDeposited().equals(BigInteger.ZERO)) {
-            Context.call(_syndication.totalDeposited(), this.addressCPS.get(), "add_fund");
-        }
+        BigInteger refund = this.distributeTokenShare(_token, _syndication);
 
-        this.distributeTokenShare(_token, _syndication);
+        // Send ICX to CPS, except what is to be refunded to depositors
+        BigInteger fund = _syndication.totalDeposited().subtract(refund);
+        if (!fund.equals(BigInteger.ZERO)) {
+            Context.call(fund, this.addressCPS.get(), "add_fund");
+        }
 
         // Event log
         SyndicationEnded(_syndication.id(), _token.name(), _syndication.tokenAmount(), Context.getBlockTimestamp());
     }
 
-    public void distributeTokenShare(Token _token, Syndication _syndication) {
+    /**
+     * Distribute the token of syndication to the depositors
+     *
+     * @return total amount of ICX to refund to the depositors
+     */
+    public BigInteger distributeTokenShare(Token _token, Syndication _syndication) {
         BigInteger syndicationId = _syndication.id();
         BigInteger tokenAmount = _syndication.tokenAmount();
         BigInteger tokenUnit = _token.getUnit();
@@ -468,6 +474,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         int numberDepositor = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).size();
         BigInteger totalDeposited = _syndication.totalDeposited();
         BigInteger totalDistributedToken = BigInteger.ZERO;
+        BigInteger totalRefund = BigInteger.ZERO;
         for (int i = 0; i < numberDepositor; i++) {
             Address currentDepositorAddress = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).get(i);
             BigInteger currentDepositorAmount = FeeAggregationSCORE.syndicationDepositorAmount.at(syndicationId).get(currentDepositorAddress);
@@ -484,9 +491,11 @@ public class FeeAggregationSCORE extends IRC31Receiver {
 
             if (icxRemain.compareTo(BigInteger.ZERO) > 0) {
                 this.refundableBalances.set(currentDepositorAddress, getSafeRefundableBalance(currentDepositorAddress).add(icxRemain));
+                totalRefund = totalRefund.add(icxRemain);
             }
         }
         this.lockedBalances.set(_token.name(), getSafeLockBalance(_token.name()).add(totalDistributedToken));
+        return totalRefund;
     }
 
     boolean isSyndicationExpired(String _tokenName) {
-- 
2.43.0


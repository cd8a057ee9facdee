From 581334ba3be5181772bb58ad1fe1adb9ab8681cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:42 +0000
Subject: [PATCH 01/57] fix: decoding a DiagnosticInfo with any field present
 dereferenced nil pointers

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From e03a5d1d52d53334627391e0809bc1c10344dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:46 +0000
Subject: [PATCH 02/57] fix: array dimensions that do not match the decoded
 elements panicked the variant decoder

---
 ua/binary_decoder.go | 72 +++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..7b19287 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -1304,7 +1304,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1334,7 +1334,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1364,7 +1364,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1394,7 +1394,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1424,7 +1424,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1454,7 +1454,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1484,7 +1484,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1514,7 +1514,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1544,7 +1544,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1574,7 +1574,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1604,7 +1604,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1634,7 +1634,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1664,7 +1664,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1694,7 +1694,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1724,7 +1724,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1754,7 +1754,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1784,7 +1784,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1814,7 +1814,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1844,7 +1844,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1874,7 +1874,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1904,7 +1904,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1934,7 +1934,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1964,7 +1964,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1994,7 +1994,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2024,7 +2024,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2053,6 +2053,28 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readDimensions reads the dimensions of an array and checks that they describe exactly count elements.
+func (dec *BinaryDecoder) readDimensions(value *[]int32, count int) error {
+	var dims []int32
+	if err := dec.ReadInt32Array(&dims); err != nil {
+		return BadDecodingError
+	}
+	product := int64(1)
+	for _, d := range dims {
+		if d < 0 {
+			return BadDecodingError
+		}
+		if product *= int64(d); product > math.MaxInt32 {
+			return BadDecodingError
+		}
+	}
+	if product != int64(count) {
+		return BadDecodingError
+	}
+	*value = dims
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From dcac956baf39381383503a3940e9aa0cc12ca16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:48 +0000
Subject: [PATCH 03/57] fix: an ExpandedNodeID without identifier lost its
 namespace uri and server index flags, corrupting the stream

---
 ua/binary_encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..41b0f3a 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -705,7 +705,10 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteByte(0x00 | b); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteByte(0); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From 07c48c96f8352ad59687d18c5073c48f699c36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:47 +0000
Subject: [PATCH 04/57] fix: a Variant holding a single DataValue could be
 decoded but not encoded

---
 ua/binary_encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 41b0f3a..a33518f 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -1046,6 +1046,13 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteLocalizedText(v1); err != nil {
 			return BadEncodingError
 		}
+	case DataValue:
+		if err := enc.WriteByte(VariantTypeDataValue); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDataValue(v1); err != nil {
+			return BadEncodingError
+		}
 	case []bool:
 		if err := enc.WriteByte(VariantTypeBoolean | VariantTypeArray); err != nil {
 			return BadEncodingError
-- 
2.43.0


From 25857bb7c5b34762dd51b85b4700b8a330b50658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 05/57] fix: a structure with a Guid field could be neither
 encoded nor decoded

---
 ua/binary_decoder.go | 7 +++++--
 ua/binary_encoder.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 7b19287..6799d61 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -70,8 +70,6 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeDecoder()
-		case typeGUID:
-			return getGUIDDecoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDDecoder()
 		case typeQualifiedName:
@@ -85,6 +83,11 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		default:
 			return getStructDecoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDDecoder()
+		}
 	case reflect.Slice:
 		elemTyp := typ.Elem()
 		switch elemTyp.Kind() {
diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index a33518f..9361471 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -99,8 +99,6 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeEncoder()
-		case typeGUID:
-			return getGUIDEncoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDEncoder()
 		case typeQualifiedName:
@@ -114,6 +112,11 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		default:
 			return getStructEncoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDEncoder()
+		}
 	case reflect.Slice:
 		switch elemTyp := typ.Elem(); elemTyp.Kind() {
 		case reflect.Uint8:
-- 
2.43.0


From 91006386c32842af00e7ad673336abb698fb9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:12 +0000
Subject: [PATCH 06/57] fix: DataSetFieldFlags is a 16 bit option set on the
 wire, not 32

---
 ua/enums.generated.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/enums.generated.go b/ua/enums.generated.go
index abf2984..a146636 100644
--- a/ua/enums.generated.go
+++ b/ua/enums.generated.go
@@ -182,7 +182,7 @@ func (v PubSubState) String() string {
 }
 
 // DataSetFieldFlags enumeration.
-type DataSetFieldFlags int32
+type DataSetFieldFlags uint16
 
 // DataSetFieldFlags enumeration.
 const (
-- 
2.43.0


From c7c5409b76cb368b574c8e0e1757b216206087b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:21 +0000
Subject: [PATCH 07/57] fix: a chunk too short for its signature or padding, or
 a certificate without RSA key, crashed the server

---
 server/server_secure_channel.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..7114045 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1163,6 +1163,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.securityPolicy.SymSignatureSize()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				if _, err := ch.symVerifyHMAC.Write(ch.receiveBuffer[:sigStart]); err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1201,6 +1204,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			} else {
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - symSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
@@ -1266,7 +1272,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
 				if ch.remotePublicKey == nil {
@@ -1294,6 +1300,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1328,6 +1337,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			} else {
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize //- ch.asymRemoteSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
-- 
2.43.0


From 38c7516c23530f26b4124f59e96c09fecdfd4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:23 +0000
Subject: [PATCH 08/57] fix: a Hello announcing tiny buffers made the server
 panic or send empty chunks forever

---
 server/server_secure_channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 7114045..970c845 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -31,6 +31,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest send or receive buffer the protocol allows.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -227,6 +229,10 @@ func (ch *serverSecureChannel) Open() error {
 		if err = dec.ReadUInt32(&cliMaxChunkCount); err != nil {
 			return ua.BadDecodingError
 		}
+		// the protocol requires buffers of at least 8192 bytes
+		if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+			return ua.BadTCPNotEnoughResources
+		}
 		if err := dec.ReadString(&ch.endpointURL); err != nil {
 			return ua.BadDecodingError
 		}
-- 
2.43.0


From fbbf4d4c2f1f97a99323c3b4dd7aa33630e74f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:46 +0000
Subject: [PATCH 09/57] fix: a secure channel could be opened with a security
 policy and mode that no endpoint offers

---
 server/server_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 970c845..3a90840 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -317,6 +317,11 @@ func (ch *serverSecureChannel) Open() error {
 		}
 	}
 
+	// the client must use a combination of security policy and mode that the server offers
+	if ch.localEndpoint.EndpointURL == "" {
+		return ua.BadSecurityModeRejected
+	}
+
 	if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 		rc := ch.remoteCertificate
 		if rc == nil {
-- 
2.43.0


From dcf367451d5348bc97737d02862157ff6a12035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:48 +0000
Subject: [PATCH 10/57] fix: renewing a security token could replace the
 channel's security policy and certificate

---
 server/server_secure_channel.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 3a90840..13cb18c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1232,12 +1232,20 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// renewing the token of an open channel can not change its policy or peer
+			if ch.lastTokenID != 0 && (securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate)) {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
 			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-- 
2.43.0


From 7ad8403251cb035eb4444862c2636edac0d7bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 11/57] fix: the server accepted replayed and reordered chunks

---
 server/server_secure_channel.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 13cb18c..6004dce 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -67,6 +67,8 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	lastRemoteSequenceNumber    uint32
+	hasRemoteSequenceNumber     bool
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1188,10 +1190,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
 			if err = decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1329,10 +1334,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
 			if err := decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1560,6 +1568,18 @@ func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// acceptSequenceNumber checks that the client's chunks arrive exactly once and in order.
+// The number increases by one with every chunk and starts over below 1024 when it is about to overflow.
+func (ch *serverSecureChannel) acceptSequenceNumber(n uint32) bool {
+	last := ch.lastRemoteSequenceNumber
+	if ch.hasRemoteSequenceNumber && n != last+1 && !(last >= math.MaxUint32-1024 && n < 1024) {
+		return false
+	}
+	ch.hasRemoteSequenceNumber = true
+	ch.lastRemoteSequenceNumber = n
+	return true
+}
+
 // getNextTokenID gets next TokenID in sequence, skipping zero.
 func (ch *serverSecureChannel) getNextTokenID() uint32 {
 	for {
-- 
2.43.0


From 063f075900386a30e0328890a6f765f78c5c097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:23 +0000
Subject: [PATCH 12/57] fix: a chunk too short for its signature or padding
 crashed the client

---
 client/client_secure_channel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..461f2d3 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1467,6 +1467,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				sigStart := count - signatureSize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				ch.symVerifyHMAC.Write(receiveBuffer[:sigStart])
 				sig := ch.symVerifyHMAC.Sum(nil)
@@ -1502,6 +1505,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			default:
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - signatureSize
 			}
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
@@ -1557,6 +1563,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1591,6 +1600,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			default:
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize // - ch.asymRemoteSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
-- 
2.43.0


From 884f90acac394ab295dc156737abdc6cf2095cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 13/57] fix: the client accepted messages under a security
 token it never received, or crashed on them

---
 client/client_secure_channel.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 461f2d3..2e4aa6e 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1433,6 +1433,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
+			if tokenID != ch.receivingTokenID && tokenID != ch.tokenID {
+				ch.tokenLock.RUnlock()
+				return nil, ua.BadSecureChannelTokenUnknown
+			}
 			if tokenID != ch.receivingTokenID {
 				ch.receivingTokenID = tokenID
 
@@ -1456,6 +1460,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			plainHeaderSize = 16
 			// decrypt
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+				if ch.symDecryptingBlockCipher == nil {
+					return nil, ua.BadSecurityChecksFailed
+				}
 				span := receiveBuffer[plainHeaderSize:count]
 				if len(span)%ch.symDecryptingBlockCipher.BlockSize() != 0 {
 					return nil, ua.BadDecodingError
@@ -1466,6 +1473,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			// verify
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
+				if ch.symVerifyHMAC == nil {
+					return nil, ua.BadSecurityChecksFailed
+				}
 				sigStart := count - signatureSize
 				if sigStart < plainHeaderSize+sequenceHeaderSize {
 					return nil, ua.BadDecodingError
-- 
2.43.0


From 3f62a02463ad915b9eccf2e60fe2f79e646e8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:12 +0000
Subject: [PATCH 14/57] fix: an Acknowledge with tiny buffers made the client
 panic or send empty chunks forever

---
 client/client_secure_channel.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 2e4aa6e..25daca6 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -46,6 +46,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest send or receive buffer the protocol allows.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -354,14 +356,25 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		if remoteProtocolVersion < protocolVersion {
 			return ua.BadProtocolVersionUnsupported
 		}
-		// read the remote receiveBufferSize into the local sendBufferSize
-		if err := dec.ReadUInt32(&ch.sendBufferSize); err != nil {
+		var remoteReceiveBufferSize, remoteSendBufferSize uint32
+		if err := dec.ReadUInt32(&remoteReceiveBufferSize); err != nil {
 			return err
 		}
-		// read the remote sendBufferSize into the local receiveBufferSize
-		if err := dec.ReadUInt32(&ch.receiveBufferSize); err != nil {
+		if err := dec.ReadUInt32(&remoteSendBufferSize); err != nil {
 			return err
 		}
+		// the protocol requires buffers of at least 8192 bytes
+		if remoteReceiveBufferSize < minBufferSize || remoteSendBufferSize < minBufferSize {
+			return ua.BadTCPNotEnoughResources
+		}
+		// limit the send buffer to what the server can receive
+		if ch.sendBufferSize > remoteReceiveBufferSize {
+			ch.sendBufferSize = remoteReceiveBufferSize
+		}
+		// limit the receive buffer to what the server can send
+		if ch.receiveBufferSize > remoteSendBufferSize {
+			ch.receiveBufferSize = remoteSendBufferSize
+		}
 		if err := dec.ReadUInt32(&ch.maxRequestMessageSize); err != nil {
 			return err
 		}
-- 
2.43.0


From da806e85a5c2364fb7013d212bf6c7937c8a7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:36 +0000
Subject: [PATCH 15/57] fix: the client accepted replayed and reordered chunks

---
 client/client_secure_channel.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 25daca6..289bd36 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -111,6 +111,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	remoteSequenceNumber       uint32
+	hasRemoteSequenceNumber    bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -453,6 +455,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	ch.tokenID = 0
 	ch.sendingTokenID = 0
 	ch.receivingTokenID = 0
+	ch.hasRemoteSequenceNumber = false
 
 	go ch.responseWorker()
 
@@ -1502,10 +1505,13 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber, unused uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
 
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
@@ -1596,10 +1602,13 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber, unused uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1883,6 +1892,18 @@ func (ch *clientSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// acceptSequenceNumber checks that the server's chunks arrive exactly once and in order.
+// The number increases by one with every chunk and starts over below 1024 when it is about to overflow.
+func (ch *clientSecureChannel) acceptSequenceNumber(n uint32) bool {
+	last := ch.remoteSequenceNumber
+	if ch.hasRemoteSequenceNumber && n != last+1 && !(last >= math.MaxUint32-1024 && n < 1024) {
+		return false
+	}
+	ch.hasRemoteSequenceNumber = true
+	ch.remoteSequenceNumber = n
+	return true
+}
+
 // getNextNonce gets next random nonce of requested length.
 func getNextNonce(length int) []byte {
 	var nonce = make([]byte, length)
-- 
2.43.0


From 1a28c6d994e24e2d0071aa0e4c20599c86b4c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:27 +0000
Subject: [PATCH 16/57] fix: a message with too many chunks was refused after
 part of it had been sent, corrupting the stream

---
 client/client_secure_channel.go | 17 +++++++++++++----
 server/server_secure_channel.go | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 289bd36..a75ea8a 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1221,17 +1221,26 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		return ua.BadRequestTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
+	// refuse a message of too many chunks before the first one is sent
+	if i := int(ch.maxRequestChunkCount); i > 0 {
+		var maxBodySize = int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			var paddingHeaderSize = 1
+			if encryptionBlockSize > 256 {
+				paddingHeaderSize = 2
+			}
+			maxBodySize = ((int(ch.sendBufferSize)-16)/encryptionBlockSize)*encryptionBlockSize - sequenceHeaderSize - paddingHeaderSize - signatureSize
+		}
+		if (bodyCount+maxBodySize-1)/maxBodySize > i {
 			return ua.BadRequestTooLarge
 		}
+	}
 
+	for bodyCount > 0 {
 		// plan
 		var plainHeaderSize int
 		var paddingHeaderSize int
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 6004dce..5896283 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -917,17 +917,26 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 		return ua.BadResponseTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
+	// refuse a message of too many chunks before the first one is sent
+	if i := int(ch.maxResponseChunkCount); i > 0 {
+		var maxBodySize = int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			var paddingHeaderSize = 1
+			if encryptionBlockSize > 256 {
+				paddingHeaderSize = 2
+			}
+			maxBodySize = ((int(ch.sendBufferSize)-16)/encryptionBlockSize)*encryptionBlockSize - sequenceHeaderSize - paddingHeaderSize - signatureSize
+		}
+		if (bodyCount+maxBodySize-1)/maxBodySize > i {
 			return ua.BadResponseTooLarge
 		}
+	}
 
+	for bodyCount > 0 {
 		var plainHeaderSize int
 		var paddingHeaderSize int
 		var maxBodySize int
-- 
2.43.0


From f3ae2c5d72a526e6a7111fe0760f9ed3b91c488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 17/57] fix: an error message with status Good crashed the
 client

---
 client/client_secure_channel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index a75ea8a..3965024 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1662,6 +1662,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			if err = decoder.ReadString(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if ua.StatusCode(statusCode) == ua.Good {
+				// an error message carries no response, whatever its code.
+				return nil, ua.BadUnknownResponse
+			}
 			return nil, ua.StatusCode(statusCode)
 
 		default:
-- 
2.43.0


From 46bd716524f099259272d731be19c3644726fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 18/57] fix: writing a value of another type, or no value, to
 an index range crashed the server

---
 server/server_service_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..0a49137 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2973,6 +2973,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 	if indexRange == "" {
 		return ua.NewDataValue(value.Value, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	}
+	// elements can only be replaced by elements of the same type
+	if reflect.TypeOf(value.Value) != reflect.TypeOf(source.Value) {
+		return ua.NilDataValue, ua.BadTypeMismatch
+	}
 	ranges := strings.Split(indexRange, ",")
 	switch src := source.Value.(type) {
 	case string:
-- 
2.43.0


From e8e575b14b0ac0fdad85c26bfb3790ca7fb54f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:10 +0000
Subject: [PATCH 19/57] fix: writing part of each string of an array replaced
 the whole strings

---
 server/server_service_set.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 0a49137..4f0c524 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3202,7 +3202,23 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]string, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii := range v2 {
+				v1 := []rune(dst[i+ii])
+				v3 := []rune(v2[ii])
+				k, l, status := parseBounds(ranges[1], len(v1))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				if l-k != len(v3) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(v1[k:l], v3)
+				dst[i+ii] = string(v1)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []time.Time:
 		if len(ranges) > 1 {
@@ -3250,7 +3266,23 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]ua.ByteString, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii := range v2 {
+				v1 := []byte(dst[i+ii])
+				v3 := []byte(v2[ii])
+				k, l, status := parseBounds(ranges[1], len(v1))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				if l-k != len(v3) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(v1[k:l], v3)
+				dst[i+ii] = ua.ByteString(v1)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []ua.XMLElement:
 		if len(ranges) > 1 {
-- 
2.43.0


From 028148c81691cb765e65b5917cbe04b151448237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 20/57] fix: one reference to a missing node made the whole
 node impossible to browse

---
 server/server_service_set.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4f0c524..33b4e50 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1255,9 +1255,7 @@ func (srv *Server) handleBrowse(ch *serverSecureChannel, requestid uint32, req *
 				}
 				t, ok := m.FindNode(ua.ToNodeID(r.TargetID, srv.NamespaceUris()))
 				if !ok {
-					results[i] = ua.BrowseResult{StatusCode: ua.BadNodeIDUnknown}
-					wg.Done()
-					return
+					continue
 				}
 				rp2 := t.UserRolePermissions(session.UserIdentity())
 				if !IsUserPermitted(rp2, ua.PermissionTypeBrowse) {
-- 
2.43.0


From db4735c6a6e95435495eece05657dbaf2846b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 21/57] fix: translating a browse path followed only the first
 match and revealed nodes the user may not browse

---
 server/server_service_set.go | 63 +++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 33b4e50..aa16101 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1668,7 +1668,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -1976,48 +1976,37 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
-	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
-		if err2 != nil {
-			return nil, err2
-		}
-		targets := make([]ua.BrowsePathTarget, len(ns))
-		for i, n := range ns {
-			targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
+	}
+	ns, err := srv.target(session, nodeID, elements[0])
+	if err != nil {
+		return nil, err
+	}
+	targets := make([]ua.BrowsePathTarget, 0, len(ns))
+	if len(elements) == 1 {
+		for _, n := range ns {
+			targets = append(targets, ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32})
 		}
 		return targets, nil
-	} else {
-		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
-		if err3 != nil {
-			return nil, err3
-		}
-		var nextID ua.ExpandedNodeID
-		if len(ns2) > 0 {
-			nextID = ns2[0]
-		}
-		nextElements := make([]ua.RelativePathElement, len(elements)-1)
-		copy(nextElements, elements[1:])
-		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
-		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
-		}
-		if len(nextElements) == 0 {
-			return []ua.BrowsePathTarget{
-				{TargetID: nextID, RemainingPathIndex: math.MaxUint32},
-			}, nil
+	}
+	// every match may lead to targets
+	for _, n := range ns {
+		nextTargets, err := srv.follow(session, ua.ToNodeID(n, srv.NamespaceUris()), elements[1:])
+		if err != nil {
+			continue
 		}
-		return []ua.BrowsePathTarget{
-			{TargetID: nextID, RemainingPathIndex: uint32(len(nextElements))},
-		}, nil
+		targets = append(targets, nextTargets...)
 	}
+	if len(targets) == 0 {
+		return nil, ua.BadNoMatch
+	}
+	return targets, nil
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
@@ -2027,6 +2016,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2043,6 +2035,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		targets = append(targets, r.TargetID)
 	}
 	if len(targets) == 0 {
-- 
2.43.0


From 21c470a851ffd3f0b1d25a91de8a32002ac4243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:03 +0000
Subject: [PATCH 22/57] fix: a continuation point of less than 4 bytes crashed
 the server

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..d5bcf9a 100644
--- a/server/session.go
+++ b/server/session.go
@@ -359,7 +359,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From cae71cb357c066f6e146103c5138e7887972553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 23/57] fix: a role mapping rule that excludes the application
 or endpoint disabled all rules after it

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..5147abd 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // with next rule
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From 1b59f9f7e88663ff67602ce22b083541963657d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 24/57] fix: the history of any node could be read by every
 session without permission

---
 server/server_service_set.go | 66 +++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index aa16101..38567c6 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2536,9 +2536,24 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 
 	ctx := context.Background()
 
+	// check the user may read the history of the nodes
+	results := make([]ua.HistoryReadResult, l)
+	nodesToRead := make([]ua.HistoryReadValueID, 0, l)
+	indexes := make([]int, 0, l)
+	for i, item := range req.NodesToRead {
+		if sc := srv.checkHistoryRead(session, item.NodeID); sc != ua.Good {
+			results[i].StatusCode = sc
+			continue
+		}
+		nodesToRead = append(nodesToRead, item)
+		indexes = append(indexes, i)
+	}
+
 	switch details := req.HistoryReadDetails.(type) {
 	case ua.ReadEventDetails:
-		results, status := h.ReadEvent(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := mergeHistoryRead(results, indexes, func() ([]ua.HistoryReadResult, ua.StatusCode) {
+			return h.ReadEvent(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		})
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2556,7 +2571,9 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadRawModifiedDetails:
-		results, status := h.ReadRawModified(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := mergeHistoryRead(results, indexes, func() ([]ua.HistoryReadResult, ua.StatusCode) {
+			return h.ReadRawModified(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		})
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2574,7 +2591,9 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadProcessedDetails:
-		results, status := h.ReadProcessed(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := mergeHistoryRead(results, indexes, func() ([]ua.HistoryReadResult, ua.StatusCode) {
+			return h.ReadProcessed(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		})
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2592,7 +2611,9 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadAtTimeDetails:
-		results, status := h.ReadAtTime(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := mergeHistoryRead(results, indexes, func() ([]ua.HistoryReadResult, ua.StatusCode) {
+			return h.ReadAtTime(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		})
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -6088,6 +6109,43 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	}
 }
 
+// checkHistoryRead returns Good if the user of the session may read the history of the node.
+func (srv *Server) checkHistoryRead(session *Session, nodeID ua.NodeID) ua.StatusCode {
+	n, ok := srv.NamespaceManager().FindNode(nodeID)
+	if !ok {
+		return ua.BadNodeIDUnknown
+	}
+	rp := n.UserRolePermissions(session.UserIdentity())
+	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
+		return ua.BadNodeIDUnknown
+	}
+	if !IsUserPermitted(rp, ua.PermissionTypeReadHistory) {
+		return ua.BadUserAccessDenied
+	}
+	return ua.Good
+}
+
+// mergeHistoryRead reads the history of the permitted nodes and stores it at their indexes in results.
+func mergeHistoryRead(results []ua.HistoryReadResult, indexes []int, read func() ([]ua.HistoryReadResult, ua.StatusCode)) ([]ua.HistoryReadResult, ua.StatusCode) {
+	if len(indexes) == 0 {
+		return results, ua.Good
+	}
+	permitted, status := read()
+	if status.IsBad() || len(permitted) != len(indexes) {
+		if len(results) == len(indexes) {
+			return permitted, status
+		}
+		if !status.IsBad() {
+			status = ua.BadUnexpectedError
+		}
+		return nil, status
+	}
+	for j, i := range indexes {
+		results[i] = permitted[j]
+	}
+	return results, status
+}
+
 // readValue returns the value of the attribute.
 func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.DataValue {
 	if session == nil {
-- 
2.43.0


From 986265a2c045c0019e6e77a63f737b42d18caa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 25/57] fix: a node the user may not browse could be monitored

---
 server/server_service_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 38567c6..7e860d2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3903,6 +3903,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadNodeIDUnknown}
 			continue
 		}
+		if !IsUserPermitted(n.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadNodeIDUnknown}
+			continue
+		}
 		attr := item.ItemToMonitor.AttributeID
 		if !n.IsAttributeIDValid(attr) {
 			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadAttributeIDInvalid}
-- 
2.43.0


From 0ac4779288c5fa42ae08e920c87c5ba63670f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 26/57] fix: writing a variable set to historizing on a server
 without historian crashed

---
 server/variable_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..25ad389 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -131,7 +131,7 @@ func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
 	n.value = value
-	if n.historizing {
+	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
 	}
 }
-- 
2.43.0


From 8dc2e810d4bd1c485ba5403171ca6940d51b7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 27/57] fix: a multidimensional array of any element type was
 accepted for a variable of another type or rank

---
 server/server_service_set.go | 42 +++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 7e860d2..77ac293 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5619,6 +5619,34 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	return nil
 }
 
+// arrayVariantTypes is the variant type of the elements of an array.
+var arrayVariantTypes = map[reflect.Type]byte{
+	reflect.TypeOf([]bool(nil)):               ua.VariantTypeBoolean,
+	reflect.TypeOf([]int8(nil)):               ua.VariantTypeSByte,
+	reflect.TypeOf([]uint8(nil)):              ua.VariantTypeByte,
+	reflect.TypeOf([]int16(nil)):              ua.VariantTypeInt16,
+	reflect.TypeOf([]uint16(nil)):             ua.VariantTypeUInt16,
+	reflect.TypeOf([]int32(nil)):              ua.VariantTypeInt32,
+	reflect.TypeOf([]uint32(nil)):             ua.VariantTypeUInt32,
+	reflect.TypeOf([]int64(nil)):              ua.VariantTypeInt64,
+	reflect.TypeOf([]uint64(nil)):             ua.VariantTypeUInt64,
+	reflect.TypeOf([]float32(nil)):            ua.VariantTypeFloat,
+	reflect.TypeOf([]float64(nil)):            ua.VariantTypeDouble,
+	reflect.TypeOf([]string(nil)):             ua.VariantTypeString,
+	reflect.TypeOf([]time.Time(nil)):          ua.VariantTypeDateTime,
+	reflect.TypeOf([]uuid.UUID(nil)):          ua.VariantTypeGUID,
+	reflect.TypeOf([]ua.ByteString(nil)):      ua.VariantTypeByteString,
+	reflect.TypeOf([]ua.XMLElement(nil)):      ua.VariantTypeXMLElement,
+	reflect.TypeOf([]ua.NodeID(nil)):          ua.VariantTypeNodeID,
+	reflect.TypeOf([]ua.ExpandedNodeID(nil)):  ua.VariantTypeExpandedNodeID,
+	reflect.TypeOf([]ua.StatusCode(nil)):      ua.VariantTypeStatusCode,
+	reflect.TypeOf([]ua.QualifiedName(nil)):   ua.VariantTypeQualifiedName,
+	reflect.TypeOf([]ua.LocalizedText(nil)):   ua.VariantTypeLocalizedText,
+	reflect.TypeOf([]ua.ExtensionObject(nil)): ua.VariantTypeExtensionObject,
+	reflect.TypeOf([]ua.DataValue(nil)):       ua.VariantTypeDataValue,
+	reflect.TypeOf([]ua.Variant(nil)):         ua.VariantTypeVariant,
+}
+
 // WriteValue writes the value of the attribute.
 func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.StatusCode {
 	if session == nil {
@@ -6065,9 +6093,17 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 					if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
 						return ua.BadTypeMismatch
 					}
-				case reflect.Slice, reflect.Array:
-					//TODO: check destType
-					if destRank == ua.ValueRankScalar {
+				case reflect.Slice:
+					// multidimensional array
+					t, dims := v3.Type(), int32(1)
+					for t.Elem().Kind() == reflect.Slice {
+						t = t.Elem()
+						dims++
+					}
+					if destType != arrayVariantTypes[t] && destType != ua.VariantTypeVariant {
+						return ua.BadTypeMismatch
+					}
+					if destRank != dims && destRank != ua.ValueRankOneOrMoreDimensions && destRank != ua.ValueRankAny {
 						return ua.BadTypeMismatch
 					}
 				default:
-- 
2.43.0


From 06bfa90c45864809d5886d13f0ab74d675aa449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 28/57] fix: a DataValue was refused by variables of that type
 and accepted as a structure

---
 server/server_service_set.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 77ac293..f8d0370 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5843,6 +5843,13 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
 					return ua.BadTypeMismatch
 				}
+			case ua.DataValue:
+				if destType != ua.VariantTypeDataValue && destType != ua.VariantTypeVariant {
+					return ua.BadTypeMismatch
+				}
+				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
+					return ua.BadTypeMismatch
+				}
 			case []bool:
 				if len(v2) > int(srv.serverCapabilities.MaxArrayLength) {
 					return ua.BadOutOfRange
-- 
2.43.0


From 7269525a9dd80c5a2b4eb7b5ddb5f77aba320ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:02 +0000
Subject: [PATCH 29/57] fix: an authenticator returning an error other than a
 status code crashed the server

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index f8d0370..a653be4 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -822,12 +822,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
 		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		code, ok := err.(ua.StatusCode)
+		if !ok {
+			code = ua.BadIdentityTokenRejected
+		}
 		err = ch.Write(
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: code,
 				},
 			},
 			requestid,
-- 
2.43.0


From 0e7768236881b344bb6a4344377f442b4718c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:02 +0000
Subject: [PATCH 30/57] fix: passwords could not be decrypted with a private
 key whose exponent is short

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a653be4..8f7e221 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -586,7 +586,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -646,7 +646,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -706,7 +706,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
-- 
2.43.0


From a087b8ddb64ce92de20a5bf49b92886c6f8b6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 31/57] fix: an encrypted password was accepted without the
 nonce of the session, so a recorded one could be replayed

---
 server/server_service_set.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 8f7e221..38deabc 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -600,7 +600,11 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			if plainBuf.Len() > 0 {
 				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
 			}
-			if plainLength < 32 || plainLength > 96 {
+			plainBytes := make([]byte, plainBuf.Len())
+			plainBuf.Read(plainBytes)
+			// the password must be followed by the last nonce of the session.
+			if plainLength < 32 || plainLength > 96 || int(plainLength) > len(plainBytes) ||
+				ua.ByteString(plainBytes[plainLength-32:plainLength]) != session.SessionNonce() {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -616,8 +620,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
+			passwordBytes := plainBytes[:plainLength-32]
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
@@ -660,7 +663,11 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			if plainBuf.Len() > 0 {
 				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
 			}
-			if plainLength < 32 || plainLength > 96 {
+			plainBytes := make([]byte, plainBuf.Len())
+			plainBuf.Read(plainBytes)
+			// the password must be followed by the last nonce of the session.
+			if plainLength < 32 || plainLength > 96 || int(plainLength) > len(plainBytes) ||
+				ua.ByteString(plainBytes[plainLength-32:plainLength]) != session.SessionNonce() {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -676,8 +683,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
+			passwordBytes := plainBytes[:plainLength-32]
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
@@ -720,7 +726,11 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			if plainBuf.Len() > 0 {
 				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
 			}
-			if plainLength < 32 || plainLength > 96 {
+			plainBytes := make([]byte, plainBuf.Len())
+			plainBuf.Read(plainBytes)
+			// the password must be followed by the last nonce of the session.
+			if plainLength < 32 || plainLength > 96 || int(plainLength) > len(plainBytes) ||
+				ua.ByteString(plainBytes[plainLength-32:plainLength]) != session.SessionNonce() {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -740,8 +750,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
+			passwordBytes := plainBytes[:plainLength-32]
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
-- 
2.43.0


From 9d667fd754d95bb9121c4e9df40c649b533b4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 32/57] fix: a client could present another application's
 certificate and take over its session on a channel of its own

---
 server/server_secure_channel.go | 12 ++++++++++++
 server/server_service_set.go    | 11 ++++++++---
 server/session.go               |  1 +
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 5896283..b52fff0 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -138,6 +138,18 @@ func (ch *serverSecureChannel) RemoteCertificate() []byte {
 	return ch.remoteCertificate
 }
 
+// clientCertificate returns the certificate the client proved to own when opening the channel, or nil if the channel is not secured.
+func (ch *serverSecureChannel) clientCertificate() []byte {
+	if ch.SecurityPolicyURI() == ua.SecurityPolicyURINone {
+		return nil
+	}
+	crts, err := x509.ParseCertificates(ch.RemoteCertificate())
+	if err != nil || len(crts) == 0 {
+		return nil
+	}
+	return crts[0].Raw
+}
+
 // RemotePublicKey gets the remote public key.
 func (ch *serverSecureChannel) RemotePublicKey() *rsa.PublicKey {
 	ch.RLock()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 38deabc..56508fa 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"bytes"
 	"context"
 	"crypto"
 	"crypto/rand"
@@ -104,10 +105,10 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 	case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256,
 		ua.SecurityPolicyURIAes128Sha256RsaOaep, ua.SecurityPolicyURIAes256Sha256RsaPss:
 
-		// check client application uri matches one of the client certificate's san.
+		// check client certificate is the channel's and client application uri matches one of its san.
 		valid := false
 		if appuri := req.ClientDescription.ApplicationURI; appuri != "" {
-			if crts, err := x509.ParseCertificates([]byte(req.ClientCertificate)); err == nil && len(crts) > 0 {
+			if crts, err := x509.ParseCertificates([]byte(req.ClientCertificate)); err == nil && len(crts) > 0 && bytes.Equal(crts[0].Raw, ch.clientCertificate()) {
 				for _, crturi := range crts[0].URIs {
 					if crturi.String() == appuri {
 						valid = true
@@ -228,7 +229,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		req.ClientDescription,
 		req.ServerURI,
 		req.EndpointURL,
-		req.ClientCertificate,
+		ua.ByteString(ch.clientCertificate()),
 		req.MaxResponseMessageSize,
 	)
 	err := srv.SessionManager().Add(session)
@@ -333,6 +334,10 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		hashed := hash.Sum(nil)
 		err = rsa.VerifyPSS(ch.RemotePublicKey(), crypto.SHA256, hashed, []byte(req.ClientSignature.Signature), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
 	}
+	// verify the client is the one that created the session.
+	if err == nil && ua.ByteString(ch.clientCertificate()) != session.ClientCertificate() {
+		err = ua.BadSecurityChecksFailed
+	}
 	if err != nil {
 		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
diff --git a/server/session.go b/server/session.go
index d5bcf9a..4697d5c 100644
--- a/server/session.go
+++ b/server/session.go
@@ -135,6 +135,7 @@ func NewSession(server *Server, sessionId ua.NodeID, sessionName string, authent
 		clientDescription:            clientDescription,
 		serverUri:                    serverUri,
 		endpointURL:                  endpointUrl,
+		clientCertificate:            clientCertificate,
 		localeIds:                    []string{"en-US"},
 		maxResponseMessageSize:       maxResponseMessageSize,
 		timeCreated:                  time.Now(),
-- 
2.43.0


From 26e683b08ef146bbdd6852ed707a3aebcb940f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:23 +0000
Subject: [PATCH 33/57] fix: a refused Cancel request was answered with the
 wrong request handle

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 56508fa..710ae67 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -993,7 +993,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionIDInvalid,
 				},
 			},
@@ -1013,7 +1013,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionNotActivated,
 				},
 			},
@@ -1030,7 +1030,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSecureChannelIDInvalid,
 				},
 			},
-- 
2.43.0


From c8d350a9c2f4e1b81eadd113d9a89af39e65d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:24 +0000
Subject: [PATCH 34/57] fix: a session could use monitored items and
 notifications of another session's subscription

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 710ae67..fb3f6ae 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3828,7 +3828,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4346,7 +4346,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4511,7 +4511,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4694,7 +4694,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5407,7 +5407,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5569,7 +5569,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 8b8f00317b63b4904c72abb00183461f07adc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:45 +0000
Subject: [PATCH 35/57] fix: a session with timeout NaN expired at once

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index fb3f6ae..ca46cd0 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -213,7 +213,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		sessionName = req.ClientDescription.ApplicationURI
 	}
 	sessionTimeout := req.RequestedSessionTimeout
-	if sessionTimeout < minSessionTimeout {
+	if sessionTimeout < minSessionTimeout || math.IsNaN(sessionTimeout) {
 		sessionTimeout = minSessionTimeout
 	}
 	if sessionTimeout > maxSessionTimeout {
-- 
2.43.0


From 6ded73ee3bb79baa2279c17d3953bfdc575ad092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:12 +0000
Subject: [PATCH 36/57] fix: a late keep-alive response dropped the results of
 the acknowledgements

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..8a46612 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -613,7 +613,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 72aa50718b8343890e1c40ed394db5f83dd5ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:12 +0000
Subject: [PATCH 37/57] fix: a republished message was lost before the client
 acknowledged it

---
 server/server_service_set.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ca46cd0..c8790e5 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5613,8 +5613,6 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 					return err
 				}
 				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
 				return nil
 			}
 		}
-- 
2.43.0


From 35829e339fa453c77f3a40df18c039d2343074de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:43 +0000
Subject: [PATCH 38/57] fix: the sequence number of a notification message
 wrapped to zero

---
 server/subscription.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 8a46612..ce10cb3 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -265,6 +265,14 @@ func (s *Subscription) setMaxNotificationsPerPublish(maxNotificationsPerPublish
 	s.maxNotificationsPerPublish = math.MaxInt32
 }
 
+// incrementSequenceNumber advances to the next sequence number, which is never zero.
+func (s *Subscription) incrementSequenceNumber() {
+	s.nextSequenceNumber++
+	if s.nextSequenceNumber == 0 {
+		s.nextSequenceNumber = 1
+	}
+}
+
 func (s *Subscription) acknowledge(seqNum uint32) bool {
 	s.Lock()
 	defer s.Unlock()
@@ -405,7 +413,7 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			s.unacknowledgedMessageCount = uint32(len(avail))
 			s.publishRequestCount++
-			s.nextSequenceNumber++
+			s.incrementSequenceNumber()
 			s.keepAliveCount = 0
 			s.lifetimeCount = 0
 			s.isLate = false
@@ -423,7 +431,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
 			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
-			s.nextSequenceNumber++
+			s.incrementSequenceNumber()
 			s.manager.Delete(s)
 			s.deleteImpl()
 		}
@@ -489,7 +497,7 @@ func (s *Subscription) publish(tn time.Time) error {
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
 				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
-				s.nextSequenceNumber++
+				s.incrementSequenceNumber()
 				s.manager.Delete(s)
 				s.deleteImpl()
 			}
@@ -595,7 +603,7 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		s.publishRequestCount++
 		s.latePublishRequestCount++
 		s.unacknowledgedMessageCount = uint32(len(avail))
-		s.nextSequenceNumber++
+		s.incrementSequenceNumber()
 		s.keepAliveCount = 0
 		s.lifetimeCount = 0
 		s.moreNotifications = more
-- 
2.43.0


From 069e018a49c90cdba64a7203c5ab8e5b6e048634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:43 +0000
Subject: [PATCH 39/57] fix: a publish request without timeout hint timed out
 at once

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 4697d5c..b4db53d 100644
--- a/server/session.go
+++ b/server/session.go
@@ -323,7 +323,7 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			rid := op.requestId
 			results := op.results
 			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			if req.RequestHeader.TimeoutHint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 78d4bc99a4b8843d8ab53cd1da91a94a682dda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:43 +0000
Subject: [PATCH 40/57] fix: a publish request of a session without
 subscription was never answered

---
 server/server_service_set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index c8790e5..16f4eae 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5455,7 +5455,8 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	default:
 	}
 
-	if sm.Len() == 0 {
+	subs := sm.GetBySession(session)
+	if len(subs) == 0 {
 		session.publishErrorCount++
 		session.errorCount++
 		err := ch.Write(
@@ -5474,7 +5475,6 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 		return nil
 	}
 
-	subs := sm.GetBySession(session)
 	sort.Slice(subs, func(i, j int) bool {
 		return subs[i].priority > subs[j].priority
 	})
-- 
2.43.0


From 2807b8e0690099037f63828876d62b573b94e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:39 +0000
Subject: [PATCH 41/57] fix: the overflow of a monitored item's queue was not
 reported

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..84bf2a1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -190,6 +190,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -200,6 +201,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -309,6 +311,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -321,6 +324,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From 1aa076f28c74fc93f70be70100cfdba6301d1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:41 +0000
Subject: [PATCH 42/57] fix: an absolute deadband was ignored for arrays and
 misjudged differences of large or unsigned integers

---
 server/datachange_monitored_item.go | 42 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 84bf2a1..75b3783 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -3,7 +3,6 @@
 package server
 
 import (
-	"bytes"
 	"math"
 	"reflect"
 	"sync/atomic"
@@ -454,45 +453,38 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 	if current == nil || previous == nil {
 		return current == previous
 	}
-	vc := reflect.ValueOf(current)
-	vp := reflect.ValueOf(previous)
+	return equalDeadbandAbsoluteValue(reflect.ValueOf(current), reflect.ValueOf(previous), deadband)
+}
+
+func equalDeadbandAbsoluteValue(vc, vp reflect.Value, deadband float64) bool {
 	if vc.Type() != vp.Type() {
 		return false
 	}
 	switch vc.Kind() {
-	case reflect.Array:
-		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
-				return false
-			}
-		}
-		return true
-	case reflect.Slice:
-		if vc.IsNil() != vp.IsNil() {
-			return false
-		}
+	case reflect.Array, reflect.Slice:
 		if vc.Len() != vp.Len() {
 			return false
 		}
-		if vc.UnsafePointer() == vp.UnsafePointer() {
-			return true
-		}
-		// special case for []byte, which is common.
-		if vc.Type().Elem().Kind() == reflect.Uint8 {
-			return bytes.Equal(vc.Bytes(), vp.Bytes())
-		}
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsoluteValue(vc.Index(i), vp.Index(i), deadband) {
 				return false
 			}
 		}
 		return true
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return math.Abs(float64(vc.Int()-vp.Int())) <= deadband
+		c, p := vc.Int(), vp.Int()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(uint64(c)-uint64(p)) <= deadband
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return math.Abs(float64(vc.Uint()-vp.Uint())) <= deadband
+		c, p := vc.Uint(), vp.Uint()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(c-p) <= deadband
 	case reflect.Float32, reflect.Float64:
-		return math.Abs(vc.Float()-vp.Float()) <= deadband
+		return vc.Float() == vp.Float() || math.Abs(vc.Float()-vp.Float()) <= deadband
 	}
 	return false
 }
-- 
2.43.0


From 91280deaedc17c9c076838cd3882e248e0d98ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 43/57] fix: the number of disabled monitored items of a
 subscription was miscounted

---
 server/datachange_monitored_item.go | 5 +++--
 server/event_monitored_item.go      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 75b3783..389d87e 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -158,13 +158,14 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.monitoringMode == ua.MonitoringModeDisabled {
+		mi.sub.disabledMonitoredItemCount--
+	}
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
-	} else {
-		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
 }
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..5f998c7 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -144,12 +144,13 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.monitoringMode == ua.MonitoringModeDisabled {
+		mi.sub.disabledMonitoredItemCount--
+	}
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.sub.disabledMonitoredItemCount++
-	} else {
-		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
 }
-- 
2.43.0


From bf787b737088485f5fa539ba689346d6ac08226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:14 +0000
Subject: [PATCH 44/57] fix: a monitored item reported values from before it
 was disabled

---
 server/datachange_monitored_item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 389d87e..4cff34b 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -164,6 +164,7 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
+		mi.prequeue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
 	}
-- 
2.43.0


From 52a69908c6cdc17144b277da93dda031d4e45c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 45/57] fix: a sampling interval NaN was granted

---
 server/datachange_monitored_item.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 4cff34b..3e6b01c 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -208,6 +208,9 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 }
 
 func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64) {
+	if math.IsNaN(samplingInterval) {
+		samplingInterval = mi.minSamplingInterval
+	}
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
 		if samplingInterval < 0 {
-- 
2.43.0


From f6d6ca3703677f9857ba21b131529ddb6e230a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:18 +0000
Subject: [PATCH 46/57] fix: a monitored item that triggers itself, or is
 triggered by one it triggers, blocked the server

---
 server/datachange_monitored_item.go | 16 ++++++----------
 server/event_monitored_item.go      | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 3e6b01c..b037eca 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -36,7 +36,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           atomic.Bool
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -111,16 +111,12 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -353,8 +349,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -415,7 +411,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 5f998c7..c098073 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -28,7 +28,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        atomic.Bool
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -99,16 +99,12 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -307,8 +303,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -323,7 +319,7 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
-- 
2.43.0


From 6db3220004a41d0957a63094235181c89c1ea90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 47/57] fix: an event filter with missing operands, cyclic
 elements or array operands crashed the server

---
 server/event_monitored_item.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index c098073..8dcd43f 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"reflect"
 	"sync/atomic"
 	"time"
 
@@ -227,6 +228,9 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 	switch element.FilterOperator {
 
 	case ua.FilterOperatorEquals:
+		if len(element.FilterOperands) < 2 {
+			return false
+		}
 		var a, b ua.Variant
 		switch c := element.FilterOperands[0].(type) {
 		case ua.LiteralOperand:
@@ -234,6 +238,10 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			a = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			// an element may only refer to a later one
+			if int(c.Index) <= idx {
+				return false
+			}
 			a = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
@@ -244,13 +252,20 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			b = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			// an element may only refer to a later one
+			if int(c.Index) <= idx {
+				return false
+			}
 			b = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
 		}
-		return a == b
+		return reflect.DeepEqual(a, b)
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) < 1 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
-- 
2.43.0


From d00942dcac8a398532581715d077d2128c01c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:30 +0000
Subject: [PATCH 48/57] fix: a triggering link added twice survived its removal

---
 server/datachange_monitored_item.go | 7 ++++++-
 server/event_monitored_item.go      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index b037eca..9654b0f 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -277,8 +277,13 @@ func (mi *DataChangeMonitoredItem) Poll() {
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *DataChangeMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 8dcd43f..5ddfeaf 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -340,8 +340,13 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *EventMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
-- 
2.43.0


From 5b77a1dfafdf21abb71fe7767862ae614cc21ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 49/57] fix: raising an event below a cycle of notifiers never
 returned

---
 server/namespace_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..3cff197 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -599,7 +599,12 @@ func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []
 
 // OnEvent raises the event, starting from the target node, follows HasNotifier references until the Server node.
 func (m *NamespaceManager) OnEvent(target *ObjectNode, evt ua.Event) error {
+	visited := map[*ObjectNode]struct{}{}
 	for target.nodeID != ua.ObjectIDServer {
+		if _, ok := visited[target]; ok {
+			return nil
+		}
+		visited[target] = struct{}{}
 		target.OnEvent(evt)
 		found := false
 		for _, r := range target.References() {
-- 
2.43.0


From f1d5ffab15f1d76399193caeb0e4faa7766e8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:08 +0000
Subject: [PATCH 50/57] fix: raising an event deadlocked with changing an item
 that monitors it

---
 server/event_monitored_item.go | 6 +++++-
 server/object_node.go          | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 5ddfeaf..be6641c 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -210,10 +210,14 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
+	defer mi.Unlock()
+	// an event may arrive late, after the item is disabled or deleted.
+	if mi.monitoringMode == ua.MonitoringModeDisabled || mi.sub == nil {
+		return
+	}
 	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
-	mi.Unlock()
 }
 
 var (
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..a8bba5e 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -115,9 +115,14 @@ func (n *ObjectNode) EventNotifier() byte {
 
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
+	// listeners are called without holding the lock, they may be adding or removing themselves.
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From 416bb6462ba2ff8290c6e2ecc70f66250691c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:11 +0000
Subject: [PATCH 51/57] fix: a subscription deleted while it is in use crashed
 the server

---
 server/datachange_monitored_item.go |  6 +++++
 server/event_monitored_item.go      |  6 +++++
 server/server_service_set.go        | 35 +++++++++++++----------------
 server/subscription.go              | 32 +++++++++++++++++++++++++-
 4 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 9654b0f..7053347 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -124,6 +124,9 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 	mi.Lock()
 	defer mi.Unlock()
 	mi.stopMonitoring()
+	if mi.sub == nil {
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid} // deleted meanwhile
+	}
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
@@ -154,6 +157,9 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.sub == nil {
+		return // deleted meanwhile
+	}
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index be6641c..0cd574f 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -113,6 +113,9 @@ func (mi *EventMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.Monit
 	mi.Lock()
 	defer mi.Unlock()
 	mi.stopMonitoring()
+	if mi.sub == nil {
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid} // deleted meanwhile
+	}
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
@@ -141,6 +144,9 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.sub == nil {
+		return // deleted meanwhile
+	}
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 16f4eae..bb0dc2e 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5595,27 +5595,22 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 
 	s.republishRequestCount++
 	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				return nil
-			}
+	if nm, ok := s.findMessage(req.RetransmitSequenceNumber); ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		s.republishMessageCount++
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index ce10cb3..d0578e3 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -97,6 +97,9 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
+	if s.manager == nil {
+		return // deleted already
+	}
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
@@ -134,6 +137,10 @@ func (s *Subscription) FindItem(id uint32) (MonitoredItem, bool) {
 func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
+	if s.manager == nil {
+		item.Delete() // the subscription was deleted meanwhile
+		return false
+	}
 	ret := false
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
@@ -172,6 +179,9 @@ func (s *Subscription) SetPublishingMode(publishingEnabled bool) {
 func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32, maxKeepAliveCount uint32, maxNotificationsPerPublish uint32, priority byte) {
 	s.Lock()
 	defer s.Unlock()
+	if s.manager == nil {
+		return // deleted meanwhile
+	}
 	s.stopPublishing()
 	s.setPublishingInterval(publishingInterval)
 	s.setMaxKeepAliveCount(maxKeepAliveCount)
@@ -277,6 +287,9 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	s.Lock()
 	defer s.Unlock()
 	q := s.retransmissionQueue
+	if q == nil {
+		return false
+	}
 	for e := q.Front(); e != nil; e = e.Next() {
 		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
 			q.Remove(e)
@@ -287,6 +300,20 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// findMessage returns the message with the sequence number if it is still available.
+func (s *Subscription) findMessage(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.RLock()
+	defer s.RUnlock()
+	if q := s.retransmissionQueue; q != nil {
+		for e := q.Front(); e != nil; e = e.Next() {
+			if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+				return nm, true
+			}
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
@@ -314,6 +341,9 @@ func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
 	s.Lock()
 	defer s.Unlock()
+	if s.manager == nil {
+		return nil // deleted meanwhile
+	}
 	notificationsAvailable := false
 	for _, item := range s.items {
 		if item.notificationsAvailable(tn, false, s.resend) {
@@ -510,7 +540,7 @@ func (s *Subscription) publish(tn time.Time) error {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if !s.isLate || s.manager == nil {
 		return false, nil
 	}
 	tn := time.Now()
-- 
2.43.0


From 0ac2a1fe4f6dec6df98942c17608521adff769b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:31 +0000
Subject: [PATCH 52/57] fix: checking for expired subscriptions deadlocked with
 one that publishes

---
 server/subscription_manager.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..08b439e 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,22 +95,17 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	// a subscription is never locked while the manager is, since a publishing subscription locks the manager.
+	m.RLock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
+	}
+	m.RUnlock()
+	for _, s := range subs {
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			// log.Printf("Deleted expired subscription '%d'.\n", s.id)
+			m.Delete(s)
 			s.Delete()
 		}
 	}
-- 
2.43.0


From a9ee3f6edea5ac42399f867023b1b5e3402fc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 53/57] fix: monitoring the diagnostics of the own subscription
 deadlocked it

---
 server/datachange_monitored_item.go | 46 ++++++++++++++++++++++++-----
 server/subscription.go              | 20 +++++++++++--
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 7053347..c983f8d 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -29,6 +29,7 @@ type DataChangeMonitoredItem struct {
 	queue               deque.Deque[ua.DataValue]
 	node                Node
 	dataChangeFilter    ua.DataChangeFilter
+	resendValue         *ua.DataValue
 	previousQueuedValue ua.DataValue
 	sub                 *Subscription
 	srv                 *Server
@@ -257,7 +258,13 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
-	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	session := mi.sub.session
+	mi.Unlock()
+	v := mi.srv.readValue(session, mi.itemToMonitor)
+	mi.Lock()
+	if mi.node == nil {
+		return // deleted meanwhile
+	}
 	mi.prequeue.PushBack(v)
 	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
@@ -272,14 +279,37 @@ func (mi *DataChangeMonitoredItem) stopMonitoring() {
 
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
+	mi.RLock()
+	if mi.node == nil {
+		mi.RUnlock()
+		return
+	}
+	session := mi.sub.session
+	mi.RUnlock()
+	// the value is read without holding the lock, the handler of the variable may need other locks.
+	v := mi.srv.readValue(session, mi.itemToMonitor)
 	mi.Lock()
-	if n := mi.node; n != nil {
-		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	if mi.node != nil {
 		mi.prequeue.PushBack(v)
 	}
 	mi.Unlock()
 }
 
+// readForResend reads the value to report if there are no changes to report.
+func (mi *DataChangeMonitoredItem) readForResend() {
+	mi.RLock()
+	if mi.node == nil || mi.monitoringMode != ua.MonitoringModeReporting {
+		mi.RUnlock()
+		return
+	}
+	session := mi.sub.session
+	mi.RUnlock()
+	v := mi.srv.readValue(session, mi.itemToMonitor)
+	mi.Lock()
+	mi.resendValue = &v
+	mi.Unlock()
+}
+
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *DataChangeMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
@@ -415,11 +445,11 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			}
 		}
 	}
-	if resend && mi.monitoringMode == ua.MonitoringModeReporting {
-		if mi.queue.Len() == 0 {
-			v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-			mi.enqueue(withTimestamps(v, mi.timestampsToReturn))
-			mi.previousQueuedValue = v
+	if v := mi.resendValue; resend && v != nil {
+		mi.resendValue = nil
+		if mi.queue.Len() == 0 && mi.monitoringMode == ua.MonitoringModeReporting {
+			mi.enqueue(withTimestamps(*v, mi.timestampsToReturn))
+			mi.previousQueuedValue = *v
 		}
 	}
 	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
diff --git a/server/subscription.go b/server/subscription.go
index d0578e3..04599eb 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -339,6 +339,15 @@ func (s *Subscription) stopPublishing() {
 
 func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
+	resend := s.takeResend()
+	if resend {
+		// read the values before locking the subscription, one may be the diagnostics of the subscription.
+		for _, item := range s.Items() {
+			if mi, ok := item.(*DataChangeMonitoredItem); ok {
+				mi.readForResend()
+			}
+		}
+	}
 	s.Lock()
 	defer s.Unlock()
 	if s.manager == nil {
@@ -346,11 +355,10 @@ func (s *Subscription) publish(tn time.Time) error {
 	}
 	notificationsAvailable := false
 	for _, item := range s.items {
-		if item.notificationsAvailable(tn, false, s.resend) {
+		if item.notificationsAvailable(tn, false, resend) {
 			notificationsAvailable = true
 		}
 	}
-	s.resend = false
 	switch {
 	case notificationsAvailable && s.publishingEnabled:
 		sess := s.session
@@ -691,3 +699,11 @@ func (s *Subscription) resendData() {
 	defer s.Unlock()
 	s.resend = true
 }
+
+func (s *Subscription) takeResend() bool {
+	s.Lock()
+	defer s.Unlock()
+	resend := s.resend
+	s.resend = false
+	return resend
+}
-- 
2.43.0


From e21bc747140807658a6e2b53bb393a69970f5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 54/57] fix: setting the publishing mode of no subscription
 succeeded

---
 server/server_service_set.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index bb0dc2e..8a94fb0 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5150,6 +5150,26 @@ func (srv *Server) handleSetPublishingMode(ch *serverSecureChannel, requestid ui
 		return nil
 	}
 
+	if len(req.SubscriptionIDs) == 0 {
+		session.setPublishingModeErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadNothingToDo,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	results := make([]ua.StatusCode, len(req.SubscriptionIDs))
 	sm := srv.SubscriptionManager()
 	for i, id := range req.SubscriptionIDs {
-- 
2.43.0


From 176dada4512f60f45139bd0e9819e138bb3d2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:35 +0000
Subject: [PATCH 55/57] fix: finding the subtypes of a type that has any never
 returned

---
 server/namespace_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 3cff197..3e73e5e 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -557,14 +557,20 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 	children := []Node{}
+	visited := map[ua.NodeID]bool{node.NodeID(): true}
 	queue := deque.Deque[Node]{}
 	queue.PushBack(node)
 	for queue.Len() > 0 {
 		node := queue.PopFront()
 		for _, r := range node.References() {
 			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
+				target, ok := m.FindNode(ua.ToNodeID(r.TargetID, m.NamespaceUris()))
+				if !ok || visited[target.NodeID()] {
+					continue
+				}
+				visited[target.NodeID()] = true
+				queue.PushBack(target)
+				children = append(children, target)
 			}
 		}
 	}
-- 
2.43.0


From bfa947b0e55904cc1d813d992b34a35af11d123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:00 +0000
Subject: [PATCH 56/57] fix: deleting a node that is below itself never
 returned

---
 server/namespace_manager.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 3e73e5e..e14f184 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -580,21 +580,16 @@ func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[ua.NodeID]bool{node.NodeID(): true}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
-				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok && !visited[target.NodeID()] {
+					visited[target.NodeID()] = true
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From 0cb0259a5d445db9845fc57f2b7cf471b9285b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:38 +0000
Subject: [PATCH 57/57] fix: nodes that were not deleted were counted as
 deleted

---
 server/namespace_manager.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index e14f184..64f7e39 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -535,23 +535,25 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 	children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
 
 	// Delete all children first
+	count := 0
 	for _, child := range children {
 		// Check if child is also protected (safety check)
 		if m.isProtectedNode(child.NodeID()) {
 			continue // Skip protected children
 		}
 		if err := m.deleteNodeandInverseReferences(child, m.namespaces); err != nil {
-			return len(children), err
+			return count, err
 		}
+		count++
 	}
 
 	// Delete the parent node
 	if err := m.deleteNodeandInverseReferences(node, m.namespaces); err != nil {
-		return len(children), err
+		return count, err
 	}
 
 	// Return count including the parent node
-	return len(children) + 1, nil
+	return count + 1, nil
 }
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
-- 
2.43.0


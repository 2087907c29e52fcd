From 31b3e1df9a741f196c7ad19d93061113a22a9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:13 +0000
Subject: [PATCH 01/29] fix: do not panic on a frame with a single byte between
 its delimiters

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..336da64 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -71,7 +71,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		return errors.ErrInvalidMessage
 	}
 	data = data[1 : len(data)-1]
-	if len(data) == 0 {
+	if len(data) < 2 {
 		return errors.ErrInvalidMessage
 	}
 
-- 
2.43.0


From 7850a272a1cfad2fe5fe5b14f6ad5eb7bae945b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:14 +0000
Subject: [PATCH 02/29] fix: compare the declared body length with the full
 actual length

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 336da64..2872b21 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -140,7 +140,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From a62cd85eb218d3c47c79f48bbd3190a3cce3357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:15 +0000
Subject: [PATCH 03/29] fix: decode headers whose terminal number is zero

---
 protocol/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..383c225 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -71,7 +71,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint("0"+bcdToString(temp), 10, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1f619d18a41827a8e478d898b170f0b3b2d67b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:16 +0000
Subject: [PATCH 04/29] fix: keep leading zero bytes of BCD times

---
 protocol/helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..a40a733 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,7 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	for len(ignorePadding) == 0 || !ignorePadding[0] {
 		if len(data) == 0 {
 			return ""
 		}
@@ -129,7 +129,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From a7ed200b1e3209888d7a92b7bcb756cc5827fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:17 +0000
Subject: [PATCH 05/29] fix: refuse bodies of 65536 bytes and more instead of
 wrapping their length

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 2872b21..5a37cfe 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -45,6 +45,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 
 	// 编码消息头
 	message.Header.MsgID = message.Body.MsgID()
+	if len(body) > 0x3ff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 169ab3014e71a291e0219315f3394308cecc0960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:06 +0000
Subject: [PATCH 06/29] fix: decode empty parameter, area and vertex lists

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From ea28b46e346eb39bdd5827f4707c8b451a3b892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:07 +0000
Subject: [PATCH 07/29] fix: refuse damaged compressed data

---
 protocol/t808_0x0901.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..4648008 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -63,7 +63,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From 915e1cd389d2a965879a91a450ea5bf3c557cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:08 +0000
Subject: [PATCH 08/29] fix: refuse public keys too small to encrypt anything
 instead of panicking

---
 protocol/helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index a40a733..587668f 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -12,6 +12,9 @@ import (
 
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
+	if pub.N == nil || pub.Size() <= 2*hash.Size()+2 {
+		return nil, rsa.ErrMessageTooLong
+	}
 	buffer := bytes.NewBuffer(nil)
 	chunks := bytesSplit(msg, pub.Size()-2*hash.Size()-2)
 	for _, chunk := range chunks {
-- 
2.43.0


From 3cd9e07c2e283a409e44e00978cbd22f50ba64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:27 +0000
Subject: [PATCH 09/29] fix: keep the data of decoded location extras so that
 they re-encode

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From 239c885593429ff2e93722b865e8f2efa16a138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:28 +0000
Subject: [PATCH 10/29] fix: refuse lists and strings longer than their 8-bit
 count or length field

---
 protocol/t808_0x0104.go | 6 ++++++
 protocol/t808_0x0107.go | 6 ++++++
 protocol/t808_0x0200.go | 3 +++
 protocol/t808_0x0702.go | 6 ++++++
 protocol/t808_0x8003.go | 3 +++
 protocol/t808_0x8103.go | 6 ++++++
 protocol/t808_0x8106.go | 3 +++
 protocol/t808_0x8108.go | 3 +++
 protocol/t808_0x8301.go | 6 ++++++
 protocol/t808_0x8302.go | 6 ++++++
 protocol/t808_0x8303.go | 3 +++
 protocol/t808_0x8401.go | 9 +++++++++
 protocol/t808_0x8600.go | 3 +++
 protocol/t808_0x8601.go | 3 +++
 protocol/t808_0x8602.go | 3 +++
 protocol/t808_0x8603.go | 3 +++
 protocol/t808_0x8605.go | 3 +++
 protocol/t808_0x8607.go | 3 +++
 protocol/t808_0x8800.go | 3 +++
 19 files changed, 81 insertions(+)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index bcc3aa8..86c8c98 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -19,6 +19,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.ReplyMsgSerialNo)
 
 	// 写入参数个数
+	if len(entity.Params) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Params)))
 
 	// 写入参数列表
@@ -27,6 +30,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x0107.go b/protocol/t808_0x0107.go
index 93a1e0d..b8ac869 100644
--- a/protocol/t808_0x0107.go
+++ b/protocol/t808_0x0107.go
@@ -52,11 +52,17 @@ func (entity *T808_0x0107) Encode() ([]byte, error) {
 
 	// 写入终端硬件版本
 	hardwareVersion := []byte(entity.HardwareVersion)
+	if len(hardwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(hardwareVersion)))
 	writer.Write(hardwareVersion)
 
 	// 写入终端固件版本号
 	softwareVersion := []byte(entity.SoftwareVersion)
+	if len(softwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(softwareVersion)))
 	writer.Write(softwareVersion)
 
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 0b8d433..55c1e96 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -146,6 +146,9 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 			continue
 		}
 		data := ext.Data()
+		if len(data) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		full := make([]byte, len(data)+2)
 		full[0], full[1] = ext.ID(), byte(len(data))
 		copy(full[2:], data)
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..ee5fa85 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -57,6 +57,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(driverName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(driverName)))
 	writer.Write(driverName)
 
@@ -76,6 +79,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(companyName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(companyName)))
 	writer.Write(companyName)
 
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 0255a2a..5a946d2 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -19,6 +19,9 @@ func (entity *T808_0x8003) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.MsgSerialNo)
 
 	// 写入重传包总数
+	if len(entity.PacketIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.PacketIDs)))
 
 	// 写入重传包 ID 列表
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index a7802b9..95d88f7 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -14,6 +14,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入参数数量
+	if len(entity.Params) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Params)))
 
 	// 写入参数列表
@@ -22,6 +25,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x8106.go b/protocol/t808_0x8106.go
index 4d434fe..f4e701e 100644
--- a/protocol/t808_0x8106.go
+++ b/protocol/t808_0x8106.go
@@ -12,6 +12,9 @@ func (entity *T808_0x8106) MsgID() MsgID {
 
 func (entity *T808_0x8106) Encode() ([]byte, error) {
 	writer := NewWriter()
+	if len(entity.Params) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Params)))
 	for _, param := range entity.Params {
 		writer.WriteUint32(param)
diff --git a/protocol/t808_0x8108.go b/protocol/t808_0x8108.go
index 0c0a489..cb8204d 100644
--- a/protocol/t808_0x8108.go
+++ b/protocol/t808_0x8108.go
@@ -44,6 +44,9 @@ func (entity *T808_0x8108) Encode() ([]byte, error) {
 	}
 
 	// 写入版本长度
+	if len(version) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(version)))
 
 	// 写入版本信息
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index db45e19..9b5a225 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -34,6 +34,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 	writer.WriteByte(entity.Type)
 
 	// 写入事件数量
+	if len(entity.Events) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Events)))
 
 	// 写入事件列表
@@ -48,6 +51,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入事件内容
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index ed47e2a..f186d10 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -42,6 +42,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(question) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(question)))
 
 	// 写入问题内容
@@ -59,6 +62,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入答案内容
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index b378e50..4f7ca66 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -46,6 +46,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入信息项总数
+	if len(entity.Items) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入信息项列表
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index a1f72b9..70e5da9 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -62,6 +62,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入联系人总数
+	if len(entity.Contacts) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Contacts)))
 
 	// 写入联系人列表
@@ -76,6 +79,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(number) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(number)))
 
 		// 写入电话号码
@@ -88,6 +94,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(contact) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(contact)))
 
 		// 写入联系人
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 9f460b6..79bd408 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -95,6 +95,9 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Action))
 
 	// 写入区域总数
+	if len(entity.Items) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入区域信息
diff --git a/protocol/t808_0x8601.go b/protocol/t808_0x8601.go
index ea023ee..ded8a5d 100644
--- a/protocol/t808_0x8601.go
+++ b/protocol/t808_0x8601.go
@@ -14,6 +14,9 @@ func (entity *T808_0x8601) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
+	if len(entity.IDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.IDs)))
 
 	// 写入ID列表
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a0bd30..8e51a29 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -49,6 +49,9 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Action))
 
 	// 写入区域总数
+	if len(entity.Items) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入区域信息
diff --git a/protocol/t808_0x8603.go b/protocol/t808_0x8603.go
index b109af1..4023d9d 100644
--- a/protocol/t808_0x8603.go
+++ b/protocol/t808_0x8603.go
@@ -14,6 +14,9 @@ func (entity *T808_0x8603) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
+	if len(entity.IDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.IDs)))
 
 	// 写入ID列表
diff --git a/protocol/t808_0x8605.go b/protocol/t808_0x8605.go
index 78498ac..3fe0400 100644
--- a/protocol/t808_0x8605.go
+++ b/protocol/t808_0x8605.go
@@ -14,6 +14,9 @@ func (entity *T808_0x8605) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入ID总数
+	if len(entity.IDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.IDs)))
 
 	// 写入ID列表
diff --git a/protocol/t808_0x8607.go b/protocol/t808_0x8607.go
index 4e61506..5991ac5 100644
--- a/protocol/t808_0x8607.go
+++ b/protocol/t808_0x8607.go
@@ -14,6 +14,9 @@ func (entity *T808_0x8607) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入路线数
+	if len(entity.IDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.IDs)))
 
 	// 写入路线ID列表
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 6a5f5de..141d95b 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -23,6 +23,9 @@ func (entity *T808_0x8800) Encode() ([]byte, error) {
 	}
 
 	// 写入重传消息数
+	if len(entity.RetryIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.RetryIDs)))
 
 	// 写入重传消息ID
-- 
2.43.0


From ce6650da1240f970986987ebce09dad5eea86e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:29 +0000
Subject: [PATCH 11/29] fix: refuse terminal numbers of more than 12 digits

---
 protocol/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 383c225..5a393b6 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -22,6 +22,9 @@ type Header struct {
 
 // 协议编码
 func (header *Header) Encode() ([]byte, error) {
+	if header.IccID > 999999999999 {
+		return nil, errors.ErrInvalidHeader
+	}
 	writer := NewWriter()
 
 	// 写入消息ID
-- 
2.43.0


From 3f1f31fdc479377df4825a9f44cac960af01772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 12/29] fix: refuse a frame that ends in an incomplete escape
 sequence

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 5a37cfe..9ff1687 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -81,6 +81,9 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	// 获取校验和
 	sum := data[len(data)-1]
 	if data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From af04e1741d241bde1a2d10c0c27b759ce8b5af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:28 +0000
Subject: [PATCH 13/29] fix: do not panic when nothing of an upload is stored

---
 multipart.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multipart.go b/multipart.go
index 654713a..6e90372 100644
--- a/multipart.go
+++ b/multipart.go
@@ -109,6 +109,9 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From a0e1949fec98cfb2c553b9a9b51e6bd90915d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:28 +0000
Subject: [PATCH 14/29] fix: create the upload directory with search permission

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 6e90372..5032b9d 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From 38474cc7be6704601e75ac58080a75ed2f22dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:29 +0000
Subject: [PATCH 15/29] fix: merge only the packets of the upload and none left
 over from an earlier one

---
 multipart.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 5032b9d..1b6159e 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,6 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
+	os.Remove(full)
 	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, err
@@ -79,11 +80,21 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sort.Sort(inputs)
 	for _, part := range inputs {
+		if part.seq < 1 || part.seq > m.Sum {
+			continue
+		}
 		if _, err = io.Copy(w, part.f); err != nil {
 			return nil, err
 		}
 	}
-	return os.OpenFile(full, os.O_RDONLY, 0644)
+	r, err := os.OpenFile(full, os.O_RDONLY, 0644)
+	if err != nil {
+		return nil, err
+	}
+	for _, part := range inputs {
+		os.Remove(part.path)
+	}
+	return r, nil
 }
 
 // 获取根目录
-- 
2.43.0


From 1c60ccc08c96474b6e185e03db8665d4db9821b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:30 +0000
Subject: [PATCH 16/29] fix: never count a partly written packet as stored

---
 multipart.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 1b6159e..98aa8cf 100644
--- a/multipart.go
+++ b/multipart.go
@@ -112,7 +112,11 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
-	return ioutil.WriteFile(name, data, 0644)
+	if err := ioutil.WriteFile(name+".tmp", data, 0644); err != nil {
+		os.Remove(name + ".tmp")
+		return err
+	}
+	return os.Rename(name+".tmp", name)
 }
 
 // 遍历分包文件
-- 
2.43.0


From 3fbb5a524d5420901a1137da158f697f89180e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:30 +0000
Subject: [PATCH 17/29] fix: merge an upload when its last missing packet
 arrives, whichever it is

---
 session_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session_handler.go b/session_handler.go
index 9161c84..efd7717 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -91,7 +91,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
-- 
2.43.0


From b3a7a160b0f78e015b620eff12a7618cb4050cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:37 +0000
Subject: [PATCH 18/29] fix: do not lose an answer that arrives before its
 request is registered

---
 session.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..038468d 100644
--- a/session.go
+++ b/session.go
@@ -96,6 +96,10 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
+	// 发送与登记期间持锁，应答不会先于登记被处理
+	session.mux.Lock()
+	defer session.mux.Unlock()
+
 	serialNo, err := session.Send(entity)
 	if err != nil {
 		return 0, err
@@ -190,11 +194,8 @@ func (session *Session) message(message *protocol.Message) {
 	}
 }
 
-// 添加请求上下文
+// 添加请求上下文(调用者持锁)
 func (session *Session) addRequestContext(ctx requestContext) {
-	session.mux.Lock()
-	defer session.mux.Unlock()
-
 	for idx, item := range session.requests {
 		if item.msgID == ctx.msgID {
 			session.requests[idx] = ctx
-- 
2.43.0


From f18681c724afabc78ebfa687667f81c38a2f67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:38 +0000
Subject: [PATCH 19/29] fix: an answer must not run the callback of an old
 request whose serial number was reused

---
 session.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/session.go b/session.go
index 038468d..5de755d 100644
--- a/session.go
+++ b/session.go
@@ -104,6 +104,7 @@ func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol
 	if err != nil {
 		return 0, err
 	}
+	session.dropRequestContext(serialNo)
 
 	if cb != nil {
 		session.addRequestContext(requestContext{
@@ -205,6 +206,16 @@ func (session *Session) addRequestContext(ctx requestContext) {
 	session.requests = append(session.requests, ctx)
 }
 
+// 丢弃流水号已被重用的请求上下文(调用者持锁)
+func (session *Session) dropRequestContext(serialNo uint16) {
+	for idx, item := range session.requests {
+		if item.serialNo == serialNo {
+			session.requests = append(session.requests[:idx], session.requests[idx+1:]...)
+			return
+		}
+	}
+}
+
 // 取出请求上下文
 func (session *Session) takeRequestContext(msgSerialNo uint16) (requestContext, bool) {
 	session.mux.Lock()
-- 
2.43.0


From 52464cafc4de6afdf159783f26b8f9fba7949792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:40 +0000
Subject: [PATCH 20/29] fix: re-arm a countdown atomically

---
 timer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timer.go b/timer.go
index b815b81..4dc931f 100644
--- a/timer.go
+++ b/timer.go
@@ -85,14 +85,15 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
+	timer.mutex.Lock()
+	defer timer.mutex.Unlock()
 	e := element{
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
-
-	timer.mutex.Lock()
-	defer timer.mutex.Unlock()
+	if old, ok := timer.mapper[key]; ok {
+		timer.q.Remove(old)
+	}
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
-- 
2.43.0


From b96e5d9cdf11688575f2d01dc8a5a393bfe8a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:41 +0000
Subject: [PATCH 21/29] fix: clean up a session that was closed before its
 close callback was added

---
 session_handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index efd7717..feaff24 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,9 +28,15 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	var once sync.Once
+	handleClose := func() {
+		once.Do(func() {
+			handler.server.handleClose(session)
+		})
+	}
+	sess.AddCloseCallback(nil, nil, handleClose)
+	// 会话可能在注册回调之前已关闭
+	defer handleClose()
 
 	for {
 		// 接收消息
-- 
2.43.0


From 32bc7ae25a3e26babbf1082307836ebd9ea887a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:43 +0000
Subject: [PATCH 22/29] fix: every received message keeps its session alive,
 not only handled ones

---
 session_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session_handler.go b/session_handler.go
index feaff24..3ac0f50 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -46,6 +46,9 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			break
 		}
 
+		// 刷新活跃时间
+		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
+
 		// 分发消息
 		message := msg.(protocol.Message)
 		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
-- 
2.43.0


From cc0cda4bbce50b190fb5e33847ed2806c87b0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 23/29] fix: running and stopping the server from different
 goroutines

---
 server.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index c2d58eb..a114e54 100644
--- a/server.go
+++ b/server.go
@@ -28,6 +28,7 @@ type Server struct {
 	timer      *CountdownTimer
 	privateKey *rsa.PrivateKey
 
+	runMutex sync.Mutex
 	mutex    sync.Mutex
 	sessions map[uint64]*Session
 
@@ -60,29 +61,37 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	server.runMutex.Lock()
 	if server.server != nil {
+		server.runMutex.Unlock()
 		return errors.New("server already running")
 	}
 
 	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
+		server.runMutex.Unlock()
 		return err
 	}
 
 	p := Protocol{
 		privateKey: server.privateKey,
 	}
-	server.server = link.NewServer(listen, &p, 24, server.handler)
+	running := link.NewServer(listen, &p, 24, server.handler)
+	server.server = running
+	server.runMutex.Unlock()
 	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return running.Serve()
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
-		server.server = nil
+	server.runMutex.Lock()
+	running := server.server
+	server.server = nil
+	server.runMutex.Unlock()
+	if running != nil {
+		running.Stop()
 	}
 }
 
-- 
2.43.0


From d81590d31a98fb07b06e1c401907aceb69efa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:46 +0000
Subject: [PATCH 24/29] fix: set and get the public key of a session from
 different goroutines

---
 protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 27305fb..31c2f74 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"sync"
 )
 
 type Protocol struct {
@@ -33,6 +34,7 @@ type ProtocolCodec struct {
 	w               io.Writer
 	r               io.Reader
 	closer          io.Closer
+	keyMutex        sync.RWMutex
 	publicKey       *rsa.PublicKey
 	privateKey      *rsa.PrivateKey
 	bufferReceiving *bytes.Buffer
@@ -40,11 +42,15 @@ type ProtocolCodec struct {
 
 // 获取RSA公钥
 func (codec *ProtocolCodec) GetPublicKey() *rsa.PublicKey {
+	codec.keyMutex.RLock()
+	defer codec.keyMutex.RUnlock()
 	return codec.publicKey
 }
 
 // 设置RSA公钥
 func (codec *ProtocolCodec) SetPublicKey(publicKey *rsa.PublicKey) {
+	codec.keyMutex.Lock()
+	defer codec.keyMutex.Unlock()
 	codec.publicKey = publicKey
 }
 
@@ -68,10 +74,11 @@ func (codec *ProtocolCodec) Send(msg interface{}) error {
 
 	var err error
 	var data []byte
-	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
+	publicKey := codec.GetPublicKey()
+	if publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
 		data, err = message.Encode()
 	} else {
-		data, err = message.Encode(codec.publicKey)
+		data, err = message.Encode(publicKey)
 	}
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From ad2ba04e4f490197f116168471964a3a8341db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:20 +0000
Subject: [PATCH 25/29] fix: merging an upload opens its packets one at a time

An upload of more packets than the process may open files could never be
merged: Merge kept every part file open at the same time.
---
 multipart.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/multipart.go b/multipart.go
index 98aa8cf..0d34649 100644
--- a/multipart.go
+++ b/multipart.go
@@ -14,7 +14,6 @@ import (
 
 // 分包文件
 type partFile struct {
-	f    *os.File
 	seq  uint16
 	path string
 }
@@ -51,20 +50,9 @@ func (m MultipartFile) IsFull() bool {
 func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	inputs := make(partFileSlice, 0)
 	err := m.walkParts(func(path string, seq uint16) error {
-		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
-		if err != nil {
-			return err
-		}
-		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
+		inputs = append(inputs, partFile{seq: seq, path: path})
 		return nil
 	})
-
-	defer func() {
-		for _, item := range inputs {
-			item.f.Close()
-		}
-	}()
-
 	if err != nil {
 		return nil, err
 	}
@@ -83,7 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 		if part.seq < 1 || part.seq > m.Sum {
 			continue
 		}
-		if _, err = io.Copy(w, part.f); err != nil {
+		if err = copyPart(w, part.path); err != nil {
 			return nil, err
 		}
 	}
@@ -97,6 +85,17 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	return r, nil
 }
 
+// 复制分包内容(逐个打开，避免耗尽文件描述符)
+func copyPart(w io.Writer, path string) error {
+	f, err := os.OpenFile(path, os.O_RDONLY, 0644)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	_, err = io.Copy(w, f)
+	return err
+}
+
 // 获取根目录
 func (m MultipartFile) rootDir() string {
 	sep := filepath.Separator
-- 
2.43.0


From b420247d7c5ccf8760a8937814cba742f514d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 26/29] fix: nothing of an earlier merged file remains behind a
 new one

When removing the file of an earlier merge fails, the new merge wrote over
its beginning and left the rest of a longer earlier upload at its end.
---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 0d34649..1c7062c 100644
--- a/multipart.go
+++ b/multipart.go
@@ -60,7 +60,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
 	os.Remove(full)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 760a1d0752bfd0010c6c529e61e37b7914c57520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:47 +0000
Subject: [PATCH 27/29] fix: encoding a circular area message does not write to
 the message

Broadcasting one such message to several sessions encodes it in all their
sending goroutines at once; setting its hemisphere bits there was a data race.
---
 protocol/t808_0x8600.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 79bd408..cd28d00 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -102,7 +102,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 
 	// 写入区域信息
 	for idx := range entity.Items {
-		item := &entity.Items[idx]
+		item := entity.Items[idx]
 
 		// 写入区域ID
 		writer.WriteUint32(item.ID)
-- 
2.43.0


From 08a56eb10b08ecb80770ad69958ca830e2ae3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 28/29] fix: a keepalive period too long to be added to the
 time means never

With such a period (math.MaxInt64, say) the expiry wrapped around into the
past and every session was closed at the next tick.
---
 timer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index 4dc931f..59d4fdc 100644
--- a/timer.go
+++ b/timer.go
@@ -2,6 +2,7 @@ package go808
 
 import (
 	"container/heap"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -87,9 +88,15 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 func (timer *CountdownTimer) Update(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	now := time.Now().Unix()
+	expire := now + atomic.LoadInt64(&timer.seconds)
+	if expire < now {
+		// 溢出，永不过期
+		expire = math.MaxInt64
+	}
 	e := element{
 		Key:    key,
-		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
+		Expire: expire,
 	}
 	if old, ok := timer.mapper[key]; ok {
 		timer.q.Remove(old)
-- 
2.43.0


From 11699ec7c337801cc540896b1ec85127d2057838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 29/29] fix: the bit helpers leave words alone at a negative
 bit offset

---
 protocol/bit.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/bit.go b/protocol/bit.go
index b2937e9..23b390e 100644
--- a/protocol/bit.go
+++ b/protocol/bit.go
@@ -1,14 +1,14 @@
 package protocol
 
 func GetBitByte(value byte, offset int) bool {
-	if offset >= 8 {
+	if offset < 0 || offset >= 8 {
 		return false
 	}
 	return value&(1<<offset) > 0
 }
 
 func SetBitByte(value *byte, offset int, set bool) {
-	if offset >= 32 {
+	if offset < 0 || offset >= 32 {
 		return
 	}
 	if set {
@@ -19,14 +19,14 @@ func SetBitByte(value *byte, offset int, set bool) {
 }
 
 func GetBitUint16(value uint16, offset int) bool {
-	if offset >= 16 {
+	if offset < 0 || offset >= 16 {
 		return false
 	}
 	return value&(1<<offset) > 0
 }
 
 func SetBitUint16(value *uint16, offset int, set bool) {
-	if offset >= 32 {
+	if offset < 0 || offset >= 32 {
 		return
 	}
 	if set {
@@ -37,14 +37,14 @@ func SetBitUint16(value *uint16, offset int, set bool) {
 }
 
 func GetBitUint32(value uint32, offset int) bool {
-	if offset >= 32 {
+	if offset < 0 || offset >= 32 {
 		return false
 	}
 	return value&(1<<offset) > 0
 }
 
 func SetBitUint32(value *uint32, offset int, set bool) {
-	if offset >= 32 {
+	if offset < 0 || offset >= 32 {
 		return
 	}
 	if set {
-- 
2.43.0


From e72b038028884a35449b444803a5d7fde7ce899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 01/45] fix: aac: a rejected configuration no longer replaces
 the accepted one

---
 parser/aac/parser.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..6a783b6 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,18 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
-
 	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
+	if sampleRateIndex == 0xf {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From 7eeec88b42b4eb4ba6f57fe5f8507f6722265dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 02/45] fix: aac: refuse frames that do not fit the 13-bit ADTS
 length

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 6a783b6..501ed7f 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -80,6 +80,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// adts头的帧长度字段只有13位
+	if len(src)+adtsHeaderLen > 0x1fff {
+		return fmt.Errorf("audio frame too large for adts, data size(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
-- 
2.43.0


From 71a1c699c2d4aa092c4eacb5aee4f465310fc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 03/45] fix: aac: keep the channel configuration out of the
 ADTS private bit

---
 parser/aac/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 501ed7f..af87aa5 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -103,7 +103,7 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 	*/
 	p.adtsHeader[2] = (p.cfgInfo.objectType - 1) << 6
 	p.adtsHeader[2] |= p.cfgInfo.sampleRateIndex << 2
-	p.adtsHeader[2] |= p.cfgInfo.channel >> 2
+	p.adtsHeader[2] |= (p.cfgInfo.channel >> 2) & 0x1
 
 	/*
 		[0:1]+channel_configuration,
-- 
2.43.0


From de5e36fcf5a27c0853cb669a1fde63cbef3e83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 04/45] fix: flv: composition time is a signed 24-bit field

---
 container/flv/tag.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..1375beb 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -134,6 +134,8 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		for i := 2; i < 5; i++ {
 			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
 		}
+		// SI24: 有符号的24位整数
+		tag.media.compositionTime = tag.media.compositionTime << 8 >> 8
 		n += 4
 	}
 
-- 
2.43.0


From c1c6de08c48b93f15605f14e04d126c5941f97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 05/45] fix: flv: a reused tag keeps nothing of the previous
 media header

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index 1375beb..399272c 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -237,6 +237,9 @@ func (tag *Tag) CompositionTime() int32 {
 
 // ParseMediaTagHeader [音视频]解析视频, 音频中的头部数据, 将数据填充到 Tag.mediat; b是Tag Data
 func (tag *Tag) ParseMediaTagHeader(b []byte, mediaType int) (int, error) {
+	// 不保留上一次解析的结果
+	tag.media = mediaTag{}
+
 	// 根据媒体类型做不同解析，这里是解析器封装，错误直接透传
 	switch mediaType {
 	case packet.PktVideo:
-- 
2.43.0


From d8878348030fa0a0257d58d21a18bb113afb16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 06/45] fix: flv: refuse payloads that do not fit the 24-bit
 tag size

---
 container/flv/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..2523817 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -118,6 +118,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize字段只有24位
+	if len(p.Data) > 0xffffff {
+		return fmt.Errorf("flv tag data too large, size(%d)", len(p.Data))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(p.Data))
 
-- 
2.43.0


From e3231cd54b2f1a6471e1f7ca6b567c68cd38d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 07/45] fix: flv: muxing metadata leaves the caller's packet
 alone

---
 container/flv/muxer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index 2523817..add3046 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -97,6 +97,9 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
 
+	// 不修改调用者的数据包
+	body := p.Data
+
 	// 数据预处理
 	switch p.Type {
 	case packet.PktVideo:
@@ -113,18 +116,18 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 			return err
 		}
 
-		p.Data = data
+		body = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// DataSize字段只有24位
-	if len(p.Data) > 0xffffff {
-		return fmt.Errorf("flv tag data too large, size(%d)", len(p.Data))
+	if len(body) > 0xffffff {
+		return fmt.Errorf("flv tag data too large, size(%d)", len(body))
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(body))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -143,7 +146,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(body)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1777dbcad2bb35e1ceef2110f188b3b19c79cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 08/45] fix: flv: a refused sequence header or metadata leaves
 the cached preamble alone

---
 container/flv/mixer.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..20d1d77 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,13 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +65,32 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	hdr := bytes.NewBuffer(make([]byte, 0, 512))
 
 	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	err := m.muxer.mux(p, 0, hdr)
+	if err != nil {
+		return err
+	}
+
+	m.cache.types.IsVideo()
+	m.cache.avcSeqHdr = hdr
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	hdr := bytes.NewBuffer(make([]byte, 0, 512))
 
 	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	err := m.muxer.mux(p, 0, hdr)
+	if err != nil {
+		return err
+	}
+
+	m.cache.types.IsAudio()
+	m.cache.aacSeqHdr = hdr
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From 3d588d897fa5bc0c4d1dfbb1872d9efffeb8b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 09/45] fix: h264: take only the stated PPS length from the
 sequence header

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..c48fcf9 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -85,7 +85,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(p.specificInfo, sps...)
-- 
2.43.0


From e12fbc547902b6f51d88cc633badfef84ed264ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 10/45] fix: h264: a new sequence header replaces the previous
 one

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index c48fcf9..493c9a3 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -88,7 +88,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
 	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
+	p.specificInfo = append([]byte(nil), sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
 	return nil
-- 
2.43.0


From 210db1588a2fed7b4aa00719f1cc8218b5453853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 11/45] fix: ts: compare the remaining PES bytes with the
 packet's actual room

---
 container/ts/muxer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..542b470 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -10,10 +10,7 @@ import (
 	"github.com/moggle-mog/goav/packet"
 )
 
-const (
-	tsDefaultDataLen = 184
-	tsPacketLen      = 188
-)
+const tsPacketLen = 188
 
 const (
 	videoPID = 0x100
@@ -121,7 +118,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From 27d274f2489356443ea5c9984e2bf2cb617265ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 12/45] fix: ts: wrap PES timestamps modulo 2^33

---
 container/ts/table/pes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..37cd13f 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -65,9 +65,7 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From 35cb30d3bdfa9059ec49f98562f097352b7df483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 13/45] fix: ts: use the PTS and DTS prefixes of ISO 13818-1

---
 container/ts/table/pes.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 37cd13f..5842443 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,15 +37,18 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
-	if mt == packet.PktVideo && pts != dts {
+	hasDts := mt == packet.PktVideo && pts != dts
+	if hasDts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
+	}
 
-		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+	// pts(前缀: 只有pts时为0010, 同时有dts时为0011)
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
+	if hasDts {
+		// dts(前缀: 0001)
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
-- 
2.43.0


From b8323aa435630b92b0ead7bb1e4e11d90a829b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 14/45] fix: ts: compute the clock in 64 bits and with signed
 composition offsets

---
 container/ts/mixer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..e03d9c7 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,12 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		// 时间增量是有符号的
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From 52ad2d3a24c11669d9508c19a42e83c7df973a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 15/45] fix: ts: refuse descriptors whose length does not fit
 its byte

---
 container/ts/table/descriptor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..f99f3f7 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,6 +3,7 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
 // Descriptor 描述表
@@ -24,6 +25,11 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	// descriptor_length字段只有1字节
+	if len(serviceProviderName)+len(serviceName)+3 > 0xff {
+		return errors.New("service descriptor too long")
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
@@ -60,6 +66,10 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+	if nameLen > 0xff {
+		return errors.New("network name too long")
+	}
+
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From 596042752fae4fa54cba7af9861e570ba2a81f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 16/45] fix: ts: count SDT packets

---
 container/ts/muxer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 542b470..702ded2 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -21,6 +21,7 @@ const (
 type Muxer struct {
 	videoCc  byte /* 包递增计数器 */
 	audioCc  byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
@@ -186,6 +187,13 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	if muxer.sdtCc > 0xf {
+		muxer.sdtCc = 0
+	}
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 2e8f4c212a001023cf4f0d9185846b809886627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 17/45] fix: ts: refuse service descriptions that do not fit
 the SDT packet

---
 container/ts/mixer.go | 6 ++++++
 container/ts/muxer.go | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index e03d9c7..ce07e6e 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -98,6 +99,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	// SDT只占用一个ts包
+	if desc.GetBuffer().Len() > maxDescLen {
+		return errors.New("service description too long")
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 702ded2..0ea2d98 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -12,6 +12,9 @@ import (
 
 const tsPacketLen = 188
 
+// SDT包中描述信息的最大长度(除去5字节TS头, 16字节SDT头和4字节CRC32)
+const maxDescLen = tsPacketLen - 5 - 16 - 4
+
 const (
 	videoPID = 0x100
 	audioPID = 0x101
@@ -183,8 +186,12 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 	return nil
 }
 
-// SDT make service description table
+// SDT make service description table, 描述信息超出单个ts包时返回nil
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
+	if desc.Len() > maxDescLen {
+		return nil
+	}
+
 	sdt := table.NewSdt()
 
 	// 填写包递增计数器, 共4位, 超出则归零
-- 
2.43.0


From 117c34e4bea29813d2a02de2a3d22fe4a68fb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 18/45] fix: ts: list each media kind once in the PMT

---
 container/ts/muxer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 0ea2d98..036f04f 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -280,13 +280,25 @@ func (muxer *Muxer) PMT(mediaType ...int) []byte {
 
 	// 填充节目信息
 	var programInfo bytes.Buffer
+	var hasVideo, hasAudio bool
 	for _, v := range mediaType {
 		switch v {
 		case packet.PktVideo:
+			// 每种媒体类型只填充一次
+			if hasVideo {
+				continue
+			}
+			hasVideo = true
+
 			// 视频节目参考时钟(PCR_PID)所在TS分组的PID: 0x00
 			pmt.PmtHeader[9] = 0x00
 			programInfo.Write(pro.Avc)
 		case packet.PktAudio:
+			if hasAudio {
+				continue
+			}
+			hasAudio = true
+
 			// 音频节目参考时钟(PCR_PID)所在TS分组的PID: 0x01
 			pmt.PmtHeader[9] = 0x01
 			programInfo.Write(pro.Aac)
-- 
2.43.0


From 615b68c9e515bee38254af5f2be74678ab0b0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 19/45] fix: ts: leave the caller's packet alone when muxing

---
 container/ts/mixer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index ce07e6e..86f7ceb 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -72,12 +72,15 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
-	err := m.parse(p, m.cache.media)
+	// 不修改调用者的数据包
+	pkt := *p
+
+	err := m.parse(&pkt, m.cache.media)
 	if err != nil {
 		return err
 	}
 
-	return m.muxer.Mux(p, m.dts, m.pts, m.ts)
+	return m.muxer.Mux(&pkt, m.dts, m.pts, m.ts)
 }
 
 // SaveMetadata 保存元数据
-- 
2.43.0


From 41207bc92ae1b654e35a0ee227ff28fd5d4e0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 20/45] fix: ts: saving sequence headers does not use up
 continuity counters

---
 container/ts/mixer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 86f7ceb..7889a18 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -121,7 +121,8 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 	}
 
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	// 缓存的序列头不会输出, 不占用包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -134,7 +135,8 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 	}
 
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	// 缓存的序列头不会输出, 不占用包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From b7120e0a917274fbe52129e06c9e0bbd4510b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 21/45] fix: a group of pictures holds at most 1024 packets

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 1c3e6d1c94c8849ea11107049c5c0c77a6e6997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 22/45] fix: a negative group count disables the GOP cache

---
 gop/gop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gop/gop.go b/gop/gop.go
index cffe9a7..d2bb3ea 100755
--- a/gop/gop.go
+++ b/gop/gop.go
@@ -17,6 +17,10 @@ type gopCache struct {
 // newGopCache GOP缓存
 // num不能等于0，否则会让播放器收到无法解码的H264包
 func newGopCache(num int) *gopCache {
+	if num < 0 {
+		num = 0
+	}
+
 	return &gopCache{
 		len:   0,
 		cap:   num,
-- 
2.43.0


From 57afdef9fed8b8634688f0d039c3b3205c6f0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 23/45] fix: write AMF0 dates without a number marker

---
 amf/amf0.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..5194af8 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -605,12 +605,11 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From 106185b18cc055a69c6969251cc5c345bdc99fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 24/45] fix: reject AMF0 strings and containers too long for
 their length field

---
 amf/amf0.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5194af8..20df272 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"time"
 )
@@ -402,6 +403,10 @@ func (ed *EnDecAMF0) EncodeReference(w io.Writer, ref uint16) (int, error) {
 
 // EncodeEcmaArray 编码关联数组类型
 func (ed *EnDecAMF0) EncodeEcmaArray(w io.Writer, val Object) (int, error) {
+	if uint64(len(val)) > math.MaxUint32 {
+		return 0, fmt.Errorf("encode amf0: array of %d entries is too long", len(val))
+	}
+
 	err := writeByte(w, ecmaArrayMarkerOnAMF0)
 	if err != nil {
 		return 0, err
@@ -491,6 +496,10 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	if len(val) > math.MaxUint16 {
+		return 0, fmt.Errorf("encode amf0: string of %d bytes is too long", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
@@ -571,6 +580,10 @@ func (ed *EnDecAMF0) encodeNull(w io.Writer) (int, error) {
 }
 
 func (ed *EnDecAMF0) encodeStrictArray(w io.Writer, val Array) (int, error) {
+	if uint64(len(val)) > math.MaxUint32 {
+		return 0, fmt.Errorf("encode amf0: array of %d elements is too long", len(val))
+	}
+
 	err := writeByte(w, strictArrayMarkerOnAMF0)
 	if err != nil {
 		return 0, err
@@ -624,6 +637,10 @@ func (ed *EnDecAMF0) encodeLongString(w io.Writer, val string, encodeMarker bool
 	var n int
 	var err error
 
+	if uint64(len(val)) > math.MaxUint32 {
+		return 0, fmt.Errorf("encode amf0: string of %d bytes is too long", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, longStringMarkerOnAMF0)
 		if err != nil {
-- 
2.43.0


From ddb8e2fdd3a5b546927b8c12cce90e7ef20e60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 25/45] fix: reject AMF3 lengths that do not fit their header

---
 amf/amf3.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..1b9625a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -730,7 +730,7 @@ func (ed *EnDecAMF3) encodeArray(w io.Writer, val Array) (int, error) {
 	n := 1
 
 	var m int
-	m, err = ed.encodeUint29(w, false, uint32(len(val)))
+	m, err = ed.encodeUint29(w, false, len(val))
 	if err != nil {
 		return 0, err
 	}
@@ -780,6 +780,9 @@ func (ed *EnDecAMF3) encodeObject(w io.Writer, val TypedObject) (int, error) {
 	if trait.Externalizable {
 		u29 |= 0x01 << 2
 	}
+	if len(trait.Properties) > 0x01FFFFFF {
+		return 0, fmt.Errorf("cannot encode object with %d members", len(trait.Properties))
+	}
 	u29 |= uint32(len(trait.Properties)) << 4
 
 	// 写入U29
@@ -866,7 +869,7 @@ func (ed *EnDecAMF3) encodeByteArray(w io.Writer, val []byte) (int, error) {
 	n := 1
 
 	var m = 0
-	m, err = ed.encodeUint29(w, false, uint32(len(val)))
+	m, err = ed.encodeUint29(w, false, len(val))
 	if err != nil {
 		return 0, err
 	}
@@ -884,7 +887,7 @@ func (ed *EnDecAMF3) encodeByteArray(w io.Writer, val []byte) (int, error) {
 
 func (ed *EnDecAMF3) encodeUtf8(w io.Writer, val string) (int, error) {
 	// 编码原始长度
-	m, err := ed.encodeUint29(w, false, uint32(len(val)))
+	m, err := ed.encodeUint29(w, false, len(val))
 	if err != nil {
 		return 0, err
 	}
@@ -900,13 +903,18 @@ func (ed *EnDecAMF3) encodeUtf8(w io.Writer, val string) (int, error) {
 	return n, nil
 }
 
-func (ed *EnDecAMF3) encodeUint29(w io.Writer, isRef bool, val uint32) (int, error) {
-	val <<= 1
+func (ed *EnDecAMF3) encodeUint29(w io.Writer, isRef bool, val int) (int, error) {
+	// 去掉标志位后只剩28位
+	if val < 0 || val > 0x0FFFFFFF {
+		return 0, fmt.Errorf("cannot encode u29 header with value %d (out of range)", val)
+	}
+
+	u29 := uint32(val) << 1
 	if !isRef {
-		val |= 0x1
+		u29 |= 0x1
 	}
 
-	return ed.writeUint29(w, val)
+	return ed.writeUint29(w, u29)
 }
 
 func (ed *EnDecAMF3) writeUint29(w io.Writer, val uint32) (int, error) {
-- 
2.43.0


From d2ba1a988f22e0dc89814b5f8e2f9be24f0f0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 26/45] fix: report write errors of AMF0 EncodeWithAMF3 and
 EncodeXmlDocument

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 20df272..b7b8a01 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -358,7 +358,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -373,7 +373,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 7b5427c2064532663d5456605fca412ec4261686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 27/45] fix: reject AMF references equal to the table length

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index b7b8a01..43f6511 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -183,7 +183,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From b42a0d4ed63dd7ea507ea0e82fc890a32ea2744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 28/45] fix: record AMF0 strict arrays and typed objects with
 their contents

---
 amf/amf0.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 43f6511..6a1ce6c 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -149,27 +149,32 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	err := ed.decodeProperties(r, result)
+	if err != nil {
+		return nil, err
+	}
+
+	return result, nil
+}
+
+// 读取键值对, 直到结束符
+func (ed *EnDecAMF0) decodeProperties(r io.Reader, result Object) error {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		// [出口]空字符串后应该是结束符
 		if key == "" {
-			err = nextByteMustBe(r, objectEndMarkerOnAMF0)
-			if err != nil {
-				return nil, err
-			}
-
-			return result, nil
+			return nextByteMustBe(r, objectEndMarkerOnAMF0)
 		}
 
 		// 序列未结束, 继续读取
 		value, err := ed.Decode(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		result[key] = value
@@ -218,6 +223,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	slot := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -229,6 +235,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 		result = append(result, val)
 	}
+	ed.deRefCache[slot] = result
 
 	return result, nil
 }
@@ -267,7 +274,8 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
-	var result TypedObject
+	result := TypedObject{Object: make(Object)}
+	slot := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
@@ -275,19 +283,15 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	if err != nil {
 		return result, err
 	}
+	result.Type = typeVal
+	ed.deRefCache[slot] = result
 
 	// 读取对象
-	objectVal, err := ed.decodeObject(r)
+	err = ed.decodeProperties(r, result.Object)
 	if err != nil {
 		return result, err
 	}
 
-	// 导出返回值
-	result = TypedObject{
-		Type:   typeVal,
-		Object: objectVal,
-	}
-
 	return result, nil
 }
 
-- 
2.43.0


From 225b090f220f61e4a10324ff90018f2fc449a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 29/45] fix: read AMF strings in bounded chunks until complete

---
 amf/amf3.go   |  6 ++----
 amf/helper.go | 29 +++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 1b9625a..9427ae9 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -437,8 +437,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +477,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..fe9f69a 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -29,6 +29,9 @@ type Encoder interface {
 	EncodeBatch(w io.Writer, args ...interface{}) error
 }
 
+// 一次最多读取的字节数
+const maxReadChunk = 64 * 1024
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
@@ -62,14 +65,24 @@ func readByte(r io.Reader) (byte, error) {
 
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
-		return bytes, err
-	}
-
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
+	var bytes []byte
+
+	// 长度由对端给出, 因此分块读取, 使占用的内存与收到的数据成正比
+	for len(bytes) < n {
+		got := len(bytes)
+		size := n - got
+		if size > maxReadChunk {
+			size = maxReadChunk
+		}
+
+		bytes = append(bytes, make([]byte, size)...)
+		_, err := io.ReadFull(r, bytes[got:])
+		if err == io.EOF && got > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return bytes, nil
-- 
2.43.0


From 5b3abddaadf4a289d12a5c0bdad8518de829b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 30/45] fix: grow AMF3 arrays and traits with the data received

---
 amf/amf3.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9427ae9..90ee4f3 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -239,7 +239,6 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	var result EcmaArrayAMF3
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -258,10 +257,13 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		var val interface{}
+		val, err = ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 
 	return result, nil
@@ -312,12 +314,14 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			var key string
+			key, err = ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, key)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
-- 
2.43.0


From ac0a589d0e3c19c51efc36662429696dc27fd962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 31/45] fix: report the end of the input inside an AMF value as
 unexpected

---
 amf/amf0.go | 13 +++++++++++++
 amf/amf3.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 6a1ce6c..f1a055e 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -50,6 +50,19 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// 值不完整
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// 解析marker之后的数据
+func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
diff --git a/amf/amf3.go b/amf/amf3.go
index 90ee4f3..2dd76d8 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,19 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// 值不完整
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// 解析marker之后的数据
+func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
-- 
2.43.0


From 1a2e3ac3e390414a3c509663df1e3396cece569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 32/45] fix: bound the nesting depth of AMF decoding

---
 amf/amf0.go |  6 ++++++
 amf/amf3.go | 25 +++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index f1a055e..f50d538 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -50,6 +50,12 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	err = ed.enter()
+	if err != nil {
+		return nil, err
+	}
+	defer ed.leave()
+
 	v, err := ed.decodeValue(r, marker)
 	if err == io.EOF {
 		// 值不完整
diff --git a/amf/amf3.go b/amf/amf3.go
index 2dd76d8..6977a9f 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -55,6 +55,25 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
+	depth            int
+}
+
+// 值的最大嵌套层数
+const maxDepth = 1000
+
+// 进入一层嵌套
+func (ed *EnDecAMF3) enter() error {
+	if ed.depth >= maxDepth {
+		return errors.New("values are nested too deeply")
+	}
+	ed.depth++
+
+	return nil
+}
+
+// 离开一层嵌套
+func (ed *EnDecAMF3) leave() {
+	ed.depth--
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -76,6 +95,12 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	err = ed.enter()
+	if err != nil {
+		return nil, err
+	}
+	defer ed.leave()
+
 	v, err := ed.decodeValue(r, marker)
 	if err == io.EOF {
 		// 值不完整
-- 
2.43.0


From fd31909c68b9c25b5b28b113c5f2a6cea4a3bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 33/45] fix: strip the metadata header by the bytes it took

---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From b30bd22042c331a8fc536e921f91ccebd522bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 34/45] fix: recognise AMF3 trait flags

---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 6977a9f..81d4ebe 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -339,10 +339,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From 9628a60b94ce88649f4eabd95e9eec41630ed4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 35/45] fix: record AMF3 arrays and objects with their contents

---
 amf/amf3.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 81d4ebe..1289d22 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -275,8 +275,9 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
-	ed.deObjTable = append(ed.deObjTable, result)
+	slot := len(ed.deObjTable)
 	result.associative = make(Object)
+	ed.deObjTable = append(ed.deObjTable, result)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -303,6 +304,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 		result.dense = append(result.dense, val)
 	}
+	ed.deObjTable[slot] = result
 
 	return result, nil
 }
@@ -366,6 +368,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	slot := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -390,9 +393,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -406,12 +406,15 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			}
 		}
 
+		ed.deObjTable[slot] = result
+
 		// 外部函数调用完即可结束
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[slot] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
-- 
2.43.0


From c46daedbb849c330c356c32e200d64870aa0747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 36/45] fix: write negative integers as AMF3 doubles

---
 amf/amf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 1289d22..7adce5d 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -610,7 +610,7 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
+		if v.Int() >= 0 && v.Int() < 536870911 {
 			return ed.encodeInteger(w, uint32(v.Int()))
 		}
 
-- 
2.43.0


From f96f149fd202dd0c247e99f31786711598a1d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 37/45] fix: allow external handlers on AMF0 decoders

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 7adce5d..4007708 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -85,6 +85,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From b81b33bff5937d0e280277f47be4dae778addd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 38/45] fix: record empty AMF3 XML documents and byte arrays

---
 amf/amf3.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 4007708..318147b 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -480,11 +480,6 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
 	buf, err := readBytes(r, int(refVal))
 	if err != nil {
@@ -520,11 +515,6 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
 	result, err := readBytes(r, int(refVal))
 	if err != nil {
-- 
2.43.0


From 9665fdba7a9d27ac82560b560d2f18d12f2febc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 39/45] fix: standard reason phrases of SIP 480 and 504

---
 sips/status.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/status.go b/sips/status.go
index 241bc11..3911b38 100644
--- a/sips/status.go
+++ b/sips/status.go
@@ -99,7 +99,7 @@ var statusTexts = map[SIPStatus]string{
 	StatusBadExtension:                "Bad Extension",
 	StatusExtensionRequired:           "Extension Required",
 	StatusIntervalTooBrief:            "Interval Too Brief",
-	StatusNoResponse:                  "No Response",
+	StatusNoResponse:                  "Temporarily Unavailable",
 	StatusCallTransactionDoesNotExist: "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                "Loop Detected",
 	StatusTooManyHops:                 "Too Many Hops",
@@ -114,7 +114,7 @@ var statusTexts = map[SIPStatus]string{
 	StatusNotImplemented:              "Not Implemented",
 	StatusBadGateway:                  "Bad Gateway",
 	StatusServiceUnavailable:          "Service Unavailable",
-	StatusServerTimeout:               "Server Timeout",
+	StatusServerTimeout:               "Server Time-out",
 	StatusVersionNotSupported:         "Version Not Supported",
 	StatusMessageTooLarge:             "Message Too Large",
 	StatusBusyEverywhere:              "Busy Everywhere",
-- 
2.43.0


From 7672bbfef006e499a84eaf3f502107e8b094543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 40/45] fix: argument with an empty value or a lone quote as
 value

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..3bb9e87 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From d76e641b73de2ecb3ff5a84d098fdc815c5c058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 41/45] fix: continuation line without a preceding header

---
 sips/sips.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..b928590 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -201,7 +201,10 @@ func (s *SIP) ParseHeader(header []byte) {
 	if header[0] == '\t' || header[0] == ' ' {
 
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		values := s.Headers[s.lastHeaderParsed]
+		if len(values) > 0 {
+			values[len(values)-1] += fmt.Sprintf(" %s", string(header))
+		}
 		return
 	}
 
-- 
2.43.0


From 2bb6c1a38eeb68c229f905822b010c4163afbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 42/45] fix: headers in compact form were never found

---
 sips/header.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..f965298 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -50,12 +50,11 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -65,12 +64,11 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
-- 
2.43.0


From 6fe1280a01445a793ca4d4a0bb9b8b1c213b4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 43/45] fix: body read beyond Content-Length

---
 sips/sips.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index b928590..a9b82b0 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -79,6 +79,9 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 
 		// read one block
 		buf := make([]byte, 4*1024)
+		if size < len(buf) {
+			buf = buf[:size]
+		}
 
 		n, err := r.Read(buf)
 		if err != nil {
-- 
2.43.0


From e7e4c771434c323113caf67dab2a117262cba60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 44/45] fix: negative Content-Length accepted

---
 sips/sips.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index a9b82b0..40097c8 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -73,6 +73,9 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size < 0 {
+		return nil, fmt.Errorf("invalid Content-Length: %d", size)
+	}
 	size -= supplement
 
 	for size > 0 {
-- 
2.43.0


From b9ba93464c91e70f35d6e05463e8eb5115a6cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 45/45] fix: request parsed into a message that held a response

---
 sips/request.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sips/request.go b/sips/request.go
index ee83d33..1943ab7 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -195,6 +195,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	} else {
 
 		// --> Request
+		s.IsResponse = false
 
 		// Validate method
 		s.Method, err = GetSIPMethod(splits[0])
-- 
2.43.0


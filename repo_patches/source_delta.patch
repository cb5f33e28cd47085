From bbb6a82d5c800d0740cac8b3410b362afe8054dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:53 +0000
Subject: [PATCH 01/29] fix: ring buffer loses the latest element on
 wrap-around and races

---
 pkg/container/ring_buffer.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..37f069a 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -6,7 +6,10 @@
 // from the current position and update it.
 package container
 
-import "sync/atomic"
+import (
+	"sync"
+	"sync/atomic"
+)
 
 // RingBuffer Structure
 type RingBuffer struct {
@@ -14,6 +17,8 @@ type RingBuffer struct {
 	Container []any // Array container of objects
 	Reader    int32 // Reader position
 	Writer    int32 // Writer Position
+
+	mutex sync.RWMutex // guards Container
 }
 
 // Create a new RingBuffer of initial size "size"
@@ -29,6 +34,8 @@ func NewRingBuffer(size int32) *RingBuffer {
 
 // Write object into the RingBuffer
 func (r *RingBuffer) Write(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	current := atomic.LoadInt32(&r.Writer)
 	r.Container[current] = v
 	next := (current + 1) % r.Size
@@ -45,24 +52,30 @@ func (r *RingBuffer) seekReader(delta int32) {
 
 // Read single object from the RingBuffer
 func (r *RingBuffer) Read() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	defer r.seekReader(1)
 	return r.Container[atomic.LoadInt32(&r.Reader)]
 }
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	r.mutex.RLock()
+	defer r.mutex.RUnlock()
+	// slot before the writer, nil if nothing has been written yet
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
 func (r *RingBuffer) Oldest() any {
+	r.mutex.RLock()
+	defer r.mutex.RUnlock()
 	return r.Container[atomic.LoadInt32(&r.Writer)]
 }
 
 // Overwrites the latest data in RingBuffer
 func (r *RingBuffer) Overwrite(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.Container[atomic.LoadInt32(&r.Writer)] = v
 }
-- 
2.43.0


From 0ecf2bfaf0f561a0ed594975e85f3816446ed4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:11 +0000
Subject: [PATCH 02/29] fix: platform commands to 2019 terminals lack the
 version byte

---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 54c5ef9e046a0e9919af4f9e625a62f2095ee9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 03/29] fix: serial numbers repeat when concurrent issuers hit
 the wrap-around

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..52edf5b 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1))
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From 6ee2dc789c4d9d52957a86fe6dba3c35597c9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:15 +0000
Subject: [PATCH 04/29] fix: GeoMeta.Encode swaps latitude and longitude type
 bits

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 2abfa88c2beac7566b640a929cf7f3da4b02e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:16 +0000
Subject: [PATCH 05/29] fix: byte-string parameters are mangled by the BCD
 conversion

---
 internal/protocol/model/device_params.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..7bd3eb8 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -3,6 +3,7 @@ package model
 import (
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/rs/zerolog/log"
@@ -159,12 +160,14 @@ var (
 	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
 	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
-	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
-	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
-	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK        = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	decodeBytes      = func(b []byte, idx *int, paramLen int) any {
+		return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(b, idx, paramLen)))
+	} // transform bytes to string
+	encodeBytes  = func(a any) (pkt []byte) { return hex.WriteBytes(pkt, hex.Str2Byte(a.(string))) } // transform string to bytes
+	decodeString = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
+	encodeString = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
+	decodeGBK    = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
+	encodeGBK    = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
 )
 
 var argTable = map[uint32]*paramFn{
-- 
2.43.0


From 500d73470ba12885f92f6d131db2c1d8607e91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:18 +0000
Subject: [PATCH 06/29] fix: unknown parameter id crashes the decoding of a
 parameter list

---
 internal/protocol/model/device_params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 7bd3eb8..fad6fbc 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -30,6 +30,10 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 	for i := 0; i < int(cnt); i++ {
 		param := &ParamData{}
 		err := param.Decode(pkt, &idx)
+		if errors.Is(err, ErrParamIDNotSupportted) {
+			p.ParamCnt--
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -87,6 +91,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		hex.ReadBytes(pkt, idx, int(p.ParamLen))
+		return ErrParamIDNotSupportted
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From 43a811ef27d5c2c6b2325f7a613be8ededf2b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:35 +0000
Subject: [PATCH 07/29] fix: keepalive check of a device that is already gone
 crashes the process

---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From 9d16710ff480417919c20cef196dbb25b3d3bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:37 +0000
Subject: [PATCH 08/29] fix: terminal drops parameters that are set for the
 first time

---
 internal/protocol/model/device_params.go | 5 +----
 internal/protocol/msg_processor.go       | 5 ++---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index fad6fbc..958b4bb 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -63,10 +63,7 @@ func (p *DeviceParams) Update(newParams *DeviceParams) {
 		paramMap[param.ParamID] = param
 	}
 	for _, newParam := range newParams.Params {
-		id := newParam.ParamID
-		if _, ok := paramMap[id]; ok {
-			paramMap[id] = newParam
-		}
+		paramMap[newParam.ParamID] = newParam
 	}
 	mergeParams := []*ParamData{}
 	for _, param := range paramMap {
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..ccb2c4e 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -419,10 +419,9 @@ func processMsg8103(_ context.Context, data *model.ProcessData) error {
 	paramCache := storage.GetDeviceParamsCache()
 	params, err := paramCache.GetDeviceParamsByPhone(in.GetHeader().PhoneNumber)
 	if errors.Is(err, storage.ErrDeviceParamsNotFound) {
-		params = in.Parameters
-	} else {
-		params.Update(in.Parameters)
+		params = &model.DeviceParams{DevicePhone: in.GetHeader().PhoneNumber}
 	}
+	params.Update(in.Parameters)
 	paramCache.CacheDeviceParams(params)
 
 	return nil
-- 
2.43.0


From 5d4530fd8e7ff390b1bf791ab2f0deb6bf37178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:38 +0000
Subject: [PATCH 09/29] fix: 2011 registrations are recorded as 2013

---
 internal/protocol/model/msg_0100.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index cbeff1c..8cd4d16 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -43,7 +43,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 			modeLen = 20
 		} else {
 			modeLen = 8
-			ver = &[]VersionType{Version2011}[0]
+			*ver = Version2011
 		}
 	} else {
 		return ErrDecodeMsg
-- 
2.43.0


From 101ecb0104ff05ae669d17055cccbe3790a269a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 10/29] fix: locations survive logout and failed authentication

---
 internal/protocol/msg_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index ccb2c4e..6acbd0c 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -259,6 +259,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	timer.Cancel(device.Phone)
 	// 清楚缓存
 	cache.DelDeviceByPhone(device.Phone)
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -312,6 +313,7 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		timer.Cancel(device.Phone)
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
+		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	} else {
 		// 鉴权通过
 		device.Status = model.DeviceStatusOnline
-- 
2.43.0


From 526e5e0c48c2df15e7b5e087e104ee044192ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 11/29] fix: server time query 0x0004 is not answered

---
 internal/protocol/msg_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 6acbd0c..0ea33d4 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -58,6 +58,11 @@ func initProcessOption() processOptions {
 		},
 		process: processMsg0003,
 	}
+	options[0x0004] = &action{ // 查询服务器时间
+		genData: func() *model.ProcessData {
+			return &model.ProcessData{Incoming: &model.Msg0004{}, Outgoing: &model.Msg8004{}}
+		},
+	}
 	options[0x0100] = &action{ // 注册
 		genData: func() *model.ProcessData {
 			return &model.ProcessData{Incoming: &model.Msg0100{}, Outgoing: &model.Msg8100{}}
-- 
2.43.0


From ef4dbab73f334c3a05176a6dbcc5f83680657a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 12/29] fix: simulated terminal crashes when its default
 parameters are queried

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 0ea33d4..67e504c 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -480,7 +480,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From 85adf7231376b65241a60c52c7b8e1cac145a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 13/29] fix: location reports with ACC on do not count as
 keepalive

---
 internal/protocol/msg_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 67e504c..d9a7f2f 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -369,9 +369,9 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 
 	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
 		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
 	}
+	device.LastestComTime = time.Now()
+	cache.CacheDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
-- 
2.43.0


From 6b1071593305c90533442f060c6dcb7327579980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 14/29] fix: terminal goes online by sending platform messages
 to the platform

---
 internal/client/tcp_client.go      | 2 ++
 internal/protocol/model/session.go | 1 +
 internal/protocol/msg_processor.go | 5 +++++
 3 files changed, 8 insertions(+)

diff --git a/internal/client/tcp_client.go b/internal/client/tcp_client.go
index 02af340..a081132 100644
--- a/internal/client/tcp_client.go
+++ b/internal/client/tcp_client.go
@@ -29,6 +29,8 @@ func (cli *TCPClient) Dial(addr string) error {
 		cli.Session = &model.Session{
 			Conn: conn,
 			ID:   remoteAddr, // using remote addr default
+
+			IsTerminal: true,
 		}
 		log.Debug().Str("addr", addr).Msg("Dialed to server")
 	}
diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 52edf5b..c72992c 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -31,6 +31,7 @@ type (
 type Session struct {
 	ID           string // remote addr
 	Conn         net.Conn
+	IsTerminal   bool // 本端是否作为终端(client进程)
 	serialNumber uint32
 }
 
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index d9a7f2f..634745b 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -149,6 +149,11 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 		return nil, ErrMsgIDNotSupportted
 	}
 
+	// 平台下发的消息只有终端才能处理
+	if session, ok := ctx.Value(model.SessionCtxKey{}).(*model.Session); ok && session != nil && !session.IsTerminal && msgID >= 0x8000 {
+		return nil, ErrMsgIDNotSupportted
+	}
+
 	// process segment packet
 	if pkt.Header.IsFragmented() && !pkt.SegCompleted {
 		return processSegmentPacket(ctx, pkt)
-- 
2.43.0


From 9cf83adb74d8ed065cd19fb86bcd8624ff722cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 15/29] fix: stray delimiter desynchronises framing, endless
 frame exhausts memory

---
 internal/protocol/frame_handler.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..7cacff4 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -14,12 +14,13 @@ import (
 )
 
 const (
-	// 标识位[2] + 消息头[21] + 消息体[1023 * 2(转义预留)]  + 校验码[1] + 标识位[2]
-	MaxFrameLen = 2 + 21 + 1023*2 + 1 + 2
+	// 标识位[1] + (消息头[21] + 消息体[1023] + 校验码[1]) * 2(转义预留) + 标识位[1]
+	MaxFrameLen = 1 + (21+1023+1)*2 + 1
 )
 
 var (
 	ErrFrameReadEmpty = errors.New("Read empty frame")
+	ErrFrameTooLong   = errors.New("Frame too long")
 )
 
 type FramePayload []byte
@@ -44,7 +45,7 @@ func NewJT808FrameHandler(conn net.Conn) *JT808FrameHandler {
 }
 
 func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
-	var inMessage bool
+	var inMessage, tooLong bool
 	buf := make([]byte, 0, MaxFrameLen)
 	readBuf := make([]byte, 1)
 	for {
@@ -54,6 +55,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if inMessage && len(buf) == 1 {
+				continue // 连续的标识位，作为新消息的起始
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
@@ -62,12 +66,18 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			// start bit
 			inMessage = !inMessage
 		} else {
-			if inMessage {
+			if inMessage && len(buf) >= MaxFrameLen {
+				tooLong = true // 超长消息，丢弃直至结束标识位
+			} else if inMessage {
 				buf = append(buf, readBuf[0])
 			}
 		}
 	}
 
+	if tooLong {
+		return nil, ErrFrameTooLong
+	}
+
 	if len(buf) == 0 {
 		return nil, ErrFrameReadEmpty
 	}
-- 
2.43.0


From 846725cc9999fa99506820cc0d35c832a6c32058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:15 +0000
Subject: [PATCH 16/29] fix: parameter lists with wrong item count or oversized
 body are sent malformed

---
 internal/api/api.go                      |  7 ++++++-
 internal/protocol/model/device_params.go | 15 +++++++++++++--
 internal/protocol/model/msg.go           |  3 +++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e9327fc 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -83,11 +83,16 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 		}
-		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
+		header := model.GenMsgHeader(device, 0x8103, 0)
 		msg := model.Msg8103{
 			Header:     header,
 			Parameters: &params,
 		}
+		if _, err := msg.Encode(); err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
+		header.SerialNumber = session.GetNextSerialNum()
 		serv.Send(session.ID, &msg)
 	})
 
diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 958b4bb..f9ad1fc 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -44,17 +45,24 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	cnt := 0
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
+		if errors.Is(err, ErrEncodeDeviceParams) {
+			return nil, err
+		}
 		if err != nil {
 			// skip this err
 			log.Error().Err(err).Str("device", p.DevicePhone).Msg("Fail to encode device param")
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		cnt++
+	}
+	if cnt > math.MaxUint8 {
+		return nil, ErrEncodeDeviceParams
 	}
-	return pkt, nil
+	return append(hex.WriteByte(nil, uint8(cnt)), pkt...), nil
 }
 
 func (p *DeviceParams) Update(newParams *DeviceParams) {
@@ -99,6 +107,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 {
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..05da460 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) {
+		return nil, ErrEncodeMsg
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From 7c5a9af6ecffac48cae6db8d9dd46a8650769739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 17/29] fix: failed HTTP queries and commands are reported as
 success or go on with a nil session

---
 internal/api/api.go           | 14 ++++++++++++--
 internal/server/tcp_server.go |  7 ++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index e9327fc..754c7ba 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -42,6 +42,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		}
 		gis, err := geoCache.GetGeoLatestByPhone(phone)
 		if err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
 		res["gis"] = gis
@@ -59,12 +60,16 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
 			Header: header,
 		}
-		serv.Send(session.ID, &msg)
+		if err := serv.Send(session.ID, &msg); err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
 		// todo: read channel from process 0104 msg
 	})
 
@@ -73,6 +78,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +88,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, 0)
 		msg := model.Msg8103{
@@ -93,7 +100,10 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			return
 		}
 		header.SerialNumber = session.GetNextSerialNum()
-		serv.Send(session.ID, &msg)
+		if err := serv.Send(session.ID, &msg); err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
 	})
 
 	httpAddr := ":" + cfg.Server.Port.HTTPPort
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..8c3f8cf 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -109,12 +109,12 @@ func (serv *TCPServer) serve(session *model.Session) {
 }
 
 // 发送消息到终端设备, 外部调用
-func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
+func (serv *TCPServer) Send(id string, msg model.JT808Msg) error {
 	// session := serv.sessions[id]
 	session, err := storage.GetSession(id)
 	if err != nil && errors.Is(err, storage.ErrSessionClosed) {
 		log.Warn().Str("id", id).Msg("Fail to get session from cache, maybe conn was closed.")
-		return
+		return err
 	}
 
 	pg := protocol.NewPipeline(session.Conn)
@@ -125,7 +125,7 @@ func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
 	err = pg.ProcessConnWrite(ctx)
 
 	if err == nil {
-		return
+		return nil
 	}
 
 	if errors.Is(err, io.ErrClosedPipe) || errors.Is(err, net.ErrClosed) {
@@ -133,4 +133,5 @@ func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
 	}
 
 	log.Error().Err(err).Str("device", id).Msg("Failed to send jtmsg to device")
+	return err
 }
-- 
2.43.0


From baed8edd2887a1fb5d6a88fda126ec48c45a7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:38 +0000
Subject: [PATCH 18/29] fix: a reused remote address mixes up old and new
 session

---
 internal/api/api.go               | 6 ++++++
 internal/server/tcp_server.go     | 2 +-
 internal/storage/session_cache.go | 6 ++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 754c7ba..0c238ed 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -58,6 +58,9 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			return
 		}
 		session, err := storage.GetSession(device.SessionID)
+		if err == nil && session.Conn != device.Conn { // 同一地址的其他连接
+			err = storage.ErrSessionClosed
+		}
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -86,6 +89,9 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			return
 		}
 		session, err := storage.GetSession(device.SessionID)
+		if err == nil && session.Conn != device.Conn { // 同一地址的其他连接
+			err = storage.ErrSessionClosed
+		}
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 8c3f8cf..f448b4b 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -76,7 +76,7 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	storage.ClearSession(session)
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..f4b8a73 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -64,11 +64,13 @@ func StoreSession(s *model.Session) {
 }
 
 // 清理session
-func ClearSession(id string) {
+func ClearSession(s *model.Session) {
 	c := getSessionCache()
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
-	delete(c.cacheByID, id)
+	if c.cacheByID[s.ID] == s { // 同一地址可能已建立新的session
+		delete(c.cacheByID, s.ID)
+	}
 }
 
 // 统计session个数
-- 
2.43.0


From 07c950f4b069bb915e5b59fb583ebc4b9496759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:40 +0000
Subject: [PATCH 19/29] fix: commands keep going to the old connection after a
 device reconnected

---
 internal/protocol/msg_processor.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 634745b..2eccdc3 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -220,7 +220,7 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	return data, nil
 }
 
-func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
+func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
 	// JT1078 4.1节定义，对每个分包回复8001
 	cache := storage.GetDeviceCache()
 	phone := pkt.Header.PhoneNumber
@@ -229,7 +229,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
-	session, err := storage.GetSession(device.SessionID)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
@@ -304,7 +304,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -325,7 +325,11 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		cache.DelDeviceByPhone(device.Phone)
 		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	} else {
-		// 鉴权通过
+		// 鉴权通过，后续通过当前连接与终端通信
+		session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+		device.SessionID = session.ID
+		device.TransProto = session.GetTransProto()
+		device.Conn = session.Conn
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
 		device.AuthCode = in.AuthCode
-- 
2.43.0


From 9eda7ea70cce20a7d38d194f13fc805050970640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:58 +0000
Subject: [PATCH 20/29] fix: device directory and session count are read
 without synchronisation

---
 internal/storage/device_cache.go  | 19 ++++++++++++++++---
 internal/storage/session_cache.go |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..31d2739 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,14 +32,26 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
-	return maps.Values(cache.cacheByPhone)
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	devices := maps.Values(cache.cacheByPhone)
+	for i, d := range devices {
+		devices[i] = copyDevice(d)
+	}
+	return devices
+}
+
+// 缓存中的设备只能在锁内访问，对外只提供副本
+func copyDevice(d *model.Device) *model.Device {
+	c := *d
+	return &c
 }
 
 func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if d, ok := cache.cacheByPlate[carPlate]; ok {
-		return d, nil
+		return copyDevice(d), nil
 	}
 	return nil, ErrDeviceNotFound
 }
@@ -53,7 +65,7 @@ func (cache *DeviceCache) GetDeviceByPhone(phone string) (*model.Device, error)
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if d, ok := cache.cacheByPhone[phone]; ok {
-		return d, nil
+		return copyDevice(d), nil
 	}
 	return nil, ErrDeviceNotFound
 }
@@ -64,6 +76,7 @@ func (cache *DeviceCache) HasPhone(phone string) bool {
 }
 
 func (cache *DeviceCache) cacheDevice(d *model.Device) {
+	d = copyDevice(d)
 	cache.cacheByPlate[d.Plate] = d
 	cache.cacheByPhone[d.Phone] = d
 }
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index f4b8a73..a625050 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -76,5 +76,7 @@ func ClearSession(s *model.Session) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From fe631c27d45ea93a44085638d83fc0f4b4f37376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:59 +0000
Subject: [PATCH 21/29] fix: check and update of a device are not atomic,
 duplicates and resurrected devices

---
 internal/protocol/keepalive.go     |  2 ++
 internal/protocol/msg_processor.go | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..d092457 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -63,6 +63,8 @@ func (j *CheckDeviceJob) Run() {
 // 1. 当前在线，保活失效，改为离线，断开tcp连接
 // 2. 当前离线，缓存保留3倍保活时间
 func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
 	gisCache := storage.GetGeoCache()
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 2eccdc3..d14517b 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -25,6 +25,9 @@ var (
 	ErrActiveClose        = errors.New("Active close")             // client无法继续处理，应主动关闭连接
 )
 
+// 保证设备的校验与变更是原子的：注册、鉴权、注销、上报、保活检查互斥
+var deviceMutex sync.Mutex
+
 // 处理消息的Handler接口
 type MsgProcessor interface {
 	Process(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error)
@@ -242,6 +245,8 @@ func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.Pr
 
 // 收到心跳，应刷新终端缓存有效期
 func processMsg0002(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 
@@ -258,6 +263,8 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 
 // 收到注销，应清除缓存，断开连接。
 func processMsg0003(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
@@ -276,6 +283,8 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 
 // 收到注册，应校验设备ID，如果可注册，则缓存设备信息并返回鉴权码
 func processMsg0100(ctx context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	in := data.Incoming.(*model.Msg0100)
 
 	cache := storage.GetDeviceCache()
@@ -305,6 +314,8 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 
 // 收到鉴权，应校验鉴权token
 func processMsg0102(ctx context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -360,6 +371,8 @@ func processMsg0104(_ context.Context, _ *model.ProcessData) error {
 
 // 收到位置信息汇报，回复通用应答
 func processMsg0200(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	in := data.Incoming.(*model.Msg0200)
 
 	cache := storage.GetDeviceCache()
@@ -390,6 +403,8 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 }
 
 func processMsg8001(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	in := data.Incoming.(*model.Msg8001)
 	// 收到8001消息，说明此时是作为终端设备
 	if in.Result == model.ResultSuccess {
-- 
2.43.0


From 1f1a62b89be0ea1bdbc9ea932555369b94e0c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:20 +0000
Subject: [PATCH 22/29] fix: fragmented messages crash the connection or are
 processed without their beginning

---
 internal/protocol/model/segment.go |  7 +++++++
 internal/protocol/packet_codec.go  | 15 ++++++++++++---
 internal/storage/segment_cache.go  | 24 ++++++++++++++++++------
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/model/segment.go b/internal/protocol/model/segment.go
index 7976a4e..fef70f0 100644
--- a/internal/protocol/model/segment.go
+++ b/internal/protocol/model/segment.go
@@ -6,6 +6,7 @@ type Segment struct {
 	MsgID    uint16 `json:"msgId"`
 	SegTotal uint16 `json:"total"`
 	SegNo    uint16 `json:"no"`
+	FirstSN  uint16 `json:"firstSn"` // 第一个分包的流水号，同一消息的分包流水号连续
 	Data     []byte `json:"data"`
 }
 
@@ -13,6 +14,11 @@ func (s *Segment) IsComplete() bool {
 	return s.SegNo == s.SegTotal
 }
 
+// 是否同一消息的分包
+func (s *Segment) SameMsg(ns *Segment) bool {
+	return s.FirstSN == ns.FirstSN && s.SegTotal == ns.SegTotal
+}
+
 func (s *Segment) Merge(ns *Segment) {
 	s.SegNo = ns.SegNo
 	s.Data = append(s.Data, ns.Data...)
@@ -24,6 +30,7 @@ func NewSegment(pd *PacketData) *Segment {
 		MsgID:    pd.Header.MsgID,
 		SegTotal: pd.Header.Frag.Total,
 		SegNo:    pd.Header.Frag.Index,
+		FirstSN:  pd.Header.SerialNumber - pd.Header.Frag.Index + 1,
 		Data:     pd.Body,
 	}
 }
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..5832d9c 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -68,9 +68,18 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
-		pd.SegCompleted = storage.CacheSegment(seg)
-		// 分包接收完成
-		pd.Body = seg.Data
+		// 未注册设备的分包不缓存
+		if storage.GetDeviceCache().HasPhone(seg.Phone) {
+			pd.SegCompleted = storage.CacheSegment(seg)
+		}
+		// 分包接收完成，后续作为完整消息处理
+		if pd.SegCompleted {
+			pd.Body = seg.Data
+			pd.Header.Frag = nil
+			pd.Header.Attr.PacketFragmented = 0
+			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
+			pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..496d2b6 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -25,6 +25,7 @@ func getSegmentCache() *SegmentCache {
 	return segmentCacheSingleton
 }
 
+// 缓存分包，返回是否接收完成。完成后seg.Data为完整的消息体
 func CacheSegment(seg *model.Segment) bool {
 	b := new(strings.Builder)
 	b.WriteString(seg.Phone)
@@ -35,11 +36,22 @@ func CacheSegment(seg *model.Segment) bool {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	if ok && s.SameMsg(seg) {
+		if seg.SegNo != s.SegNo+1 {
+			return false // 重传或乱序的分包
+		}
+		s.Merge(seg)
+	} else {
+		if seg.SegNo != 1 {
+			return false // 缺少之前的分包
+		}
+		s = seg
+		cache.cacheByKey[key] = s
+	}
+	if !s.IsComplete() {
+		return false
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data
+	return true
 }
-- 
2.43.0


From cb7f8bf847363b238da53fd007173840507962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:29 +0000
Subject: [PATCH 23/29] fix: a resource list with no or several items crashes
 the connection or is truncated

---
 internal/protocol/model/device_media.go |  7 +++----
 internal/protocol/model/msg_1205.go     | 19 +++++++++++++------
 internal/protocol/msg_processor.go      | 20 +++++++++++---------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/internal/protocol/model/device_media.go b/internal/protocol/model/device_media.go
index 979ee40..f9c801c 100644
--- a/internal/protocol/model/device_media.go
+++ b/internal/protocol/model/device_media.go
@@ -45,10 +45,9 @@ type DeviceMedia struct {
 	Size uint32 // 文件大小，单位Byte
 }
 
-func (m *DeviceMedia) Decode(pkt []byte) {
-	idx := 0
-	m.DeviceMediaQuery.Decode(pkt, &idx)
-	m.Size = hex.ReadDoubleWord(pkt, &idx)
+func (m *DeviceMedia) Decode(pkt []byte, idx *int) {
+	m.DeviceMediaQuery.Decode(pkt, idx)
+	m.Size = hex.ReadDoubleWord(pkt, idx)
 }
 
 func (m *DeviceMedia) Encode() (pkt []byte) {
diff --git a/internal/protocol/model/msg_1205.go b/internal/protocol/model/msg_1205.go
index eb237d4..48e4c9b 100644
--- a/internal/protocol/model/msg_1205.go
+++ b/internal/protocol/model/msg_1205.go
@@ -8,10 +8,10 @@ import (
 //
 // 列表过大时需要分包
 type Msg1205 struct {
-	Header             *MsgHeader `json:"header"`
-	AnswerSerialNumber uint16     `json:"answerSerialNumber"` // 流水号，对应查询音视频资源列表消息的流水号
-	MediaCount         uint32     `json:"mediaCount"`         // 音视频资源总数
-	DeviceMedia
+	Header             *MsgHeader     `json:"header"`
+	AnswerSerialNumber uint16         `json:"answerSerialNumber"` // 流水号，对应查询音视频资源列表消息的流水号
+	MediaCount         uint32         `json:"mediaCount"`         // 音视频资源总数
+	MediaList          []*DeviceMedia `json:"mediaList"`          // 音视频资源列表
 }
 
 func (m *Msg1205) Decode(packet *PacketData) error {
@@ -19,14 +19,21 @@ func (m *Msg1205) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	m.AnswerSerialNumber = hex.ReadWord(pkt, &idx)
 	m.MediaCount = hex.ReadDoubleWord(pkt, &idx)
-	m.DeviceMedia.Decode(pkt[idx:])
+	m.MediaList = nil
+	for i := uint32(0); i < m.MediaCount; i++ {
+		media := &DeviceMedia{}
+		media.Decode(pkt, &idx)
+		m.MediaList = append(m.MediaList, media)
+	}
 	return nil
 }
 
 func (m *Msg1205) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteWord(pkt, m.AnswerSerialNumber)
 	pkt = hex.WriteDoubleWord(pkt, m.MediaCount)
-	pkt = hex.WriteBytes(pkt, m.DeviceMedia.Encode())
+	for _, media := range m.MediaList {
+		pkt = hex.WriteBytes(pkt, media.Encode())
+	}
 
 	pkt, err = writeHeader(m, pkt)
 	return pkt, err
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index d14517b..36799de 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -517,16 +517,18 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 func processMsg9205(_ context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg9205)
 	out := data.Outgoing.(*model.Msg1205)
-	out.MediaCount = 1
-	out.LogicChannelID = in.LogicChannelID
+	media := &model.DeviceMedia{}
+	media.LogicChannelID = in.LogicChannelID
 	// todo, generate several start-end time pair by input time range
-	out.StartTime = in.StartTime
-	out.EndTime = in.EndTime
-	out.AlarmSign = 0
-	out.AlarmSignExt = 0
-	out.MediaType = 0
-	out.StreamType = 0
-	out.StorageType = 0
+	media.StartTime = in.StartTime
+	media.EndTime = in.EndTime
+	media.AlarmSign = 0
+	media.AlarmSignExt = 0
+	media.MediaType = 0
+	media.StreamType = 0
+	media.StorageType = 0
+	out.MediaCount = 1
+	out.MediaList = []*model.DeviceMedia{media}
 
 	return nil
 }
-- 
2.43.0


From 0d4a240158418bd79051e3cbb0af9bba9740332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:20 +0000
Subject: [PATCH 24/29] fix: a reassembled message of 64 KB or more is decoded
 with its length modulo 65536

---
 internal/protocol/model/msg_0100.go | 4 ++--
 internal/protocol/model/msg_0102.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index 8cd4d16..6f2dd2c 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -38,7 +38,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 		manuLen, modeLen, idLen = 11, 30, 30
 	} else if *ver == Version2013 {
 		manuLen, idLen = 5, 7
-		remainLen := int(m.Header.Attr.BodyLength) - idx
+		remainLen := len(pkt) - idx
 		if remainLen > 5+20+7+1 { // 厂商+型号+ID+车牌颜色，2013版本至少33位
 			modeLen = 20
 		} else {
@@ -54,7 +54,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 	m.DeviceID = strings.TrimRight(hex.ReadString(pkt, &idx, idLen), cutset)
 
 	m.PlateColor = hex.ReadByte(pkt, &idx)
-	m.PlateNumber = hex.ReadGBK(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+	m.PlateNumber = hex.ReadGBK(pkt, &idx, len(pkt)-idx)
 	m.LocationDesc = region.Parse(fmt.Sprintf("%02d%04d", m.ProvinceID, m.CityID)).Name
 
 	return nil
diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..38c0a47 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -20,7 +20,7 @@ func (m *Msg0102) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	ver := m.Header.Attr.VersionDesc
 	if ver == Version2013 {
-		m.AuthCode = hex.ReadString(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+		m.AuthCode = hex.ReadString(pkt, &idx, len(pkt)-idx)
 	} else if ver == Version2019 {
 		m.AuthCodeLen = hex.ReadByte(pkt, &idx)
 		m.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))
-- 
2.43.0


From ac3af0d62fe94e67daf4402cccf272c7f7a626f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:36 +0000
Subject: [PATCH 25/29] fix: received fragments of a removed device are kept
 and complete messages of its successor

---
 internal/protocol/keepalive.go     |  1 +
 internal/protocol/msg_processor.go |  2 ++
 internal/storage/segment_cache.go  | 12 ++++++++++++
 3 files changed, 15 insertions(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index d092457..88e723e 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -83,6 +83,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 		d.Conn.Close()
 		cache.DelDeviceByPhone(devicePhone)
 		gisCache.DelGeoByPhone(devicePhone)
+		storage.DelSegmentByPhone(devicePhone)
 		log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
 		t.Cancel(devicePhone)
 	}
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 36799de..811892f 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -277,6 +277,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	// 清楚缓存
 	cache.DelDeviceByPhone(device.Phone)
 	storage.GetGeoCache().DelGeoByPhone(device.Phone)
+	storage.DelSegmentByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -335,6 +336,7 @@ func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
 		storage.GetGeoCache().DelGeoByPhone(device.Phone)
+		storage.DelSegmentByPhone(device.Phone)
 	} else {
 		// 鉴权通过，后续通过当前连接与终端通信
 		session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 496d2b6..7b5a557 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -55,3 +55,15 @@ func CacheSegment(seg *model.Segment) bool {
 	seg.Data = s.Data
 	return true
 }
+
+// 清除设备未接收完的分包
+func DelSegmentByPhone(phone string) {
+	cache := getSegmentCache()
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	for key, s := range cache.cacheByKey {
+		if s.Phone == phone {
+			delete(cache.cacheByKey, key)
+		}
+	}
+}
-- 
2.43.0


From da139c668d045a5fee755cd4ae4390e38535c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:31 +0000
Subject: [PATCH 26/29] fix: keep every digit of a terminal's phone number

A nibble 0xF cut off everything before it, so that a 2019 terminal number could
pass for another terminal's 12-digit number and its answers had a malformed
header.
---
 internal/protocol/model/header.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index 9801d22..43def41 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"strings"
+
 	"github.com/pkg/errors"
 
 	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
@@ -41,9 +43,9 @@ func (h *MsgHeader) Decode(pkt []byte) error {
 
 	// 2013版本，phoneNumber [5,11)位 长度6位；2019版本，phoneNumber [5,15)位 长度10位。
 	if h.Attr.VersionDesc == Version2019 {
-		h.PhoneNumber = hex.ReadBCD(pkt, &idx, 10)
+		h.PhoneNumber = readPhone(pkt, &idx, 10)
 	} else if h.Attr.VersionDesc == Version2013 {
-		h.PhoneNumber = hex.ReadBCD(pkt, &idx, 6)
+		h.PhoneNumber = readPhone(pkt, &idx, 6)
 	} else {
 		return ErrDecodeHeader
 	}
@@ -63,6 +65,11 @@ func (h *MsgHeader) Decode(pkt []byte) error {
 	return nil
 }
 
+// 手机号为定长BCD，保留每一位，避免不同的手机号被当作同一个
+func readPhone(pkt []byte, idx *int, n int) string {
+	return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(pkt, idx, n)))
+}
+
 // 将消息头结构体编码成[]byte
 func (h *MsgHeader) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteWord(pkt, h.MsgID)         // 消息id
-- 
2.43.0


From 4390fd063cfbfbcc3182ca6f0d9600dd6ea3e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:31 +0000
Subject: [PATCH 27/29] fix: do not keep a fragment that arrives while its
 device is removed

The check that the device is registered and the caching of the fragment were not
atomic, so a fragment in flight at the removal survived it and completed or
altered a message of the next registration.
---
 internal/protocol/packet_codec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index 5832d9c..6f77c1e 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -68,10 +68,12 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
-		// 未注册设备的分包不缓存
+		// 未注册设备的分包不缓存，且不能与设备的清除交错
+		deviceMutex.Lock()
 		if storage.GetDeviceCache().HasPhone(seg.Phone) {
 			pd.SegCompleted = storage.CacheSegment(seg)
 		}
+		deviceMutex.Unlock()
 		// 分包接收完成，后续作为完整消息处理
 		if pd.SegCompleted {
 			pd.Body = seg.Data
-- 
2.43.0


From 65ec111d6899b4351ac19e84b9cb47d37e81e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 28/29] fix: recognise the FATAL log level

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0


From 16f7a0ae8d0d75cae30441e56d9774d91ba0f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 29/29] fix: read a parameter setting as JSON whatever content
 type the request names

---
 internal/api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 0c238ed..4784d2d 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -79,7 +79,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 	router.PUT("/device/:phone/params", func(c *gin.Context) {
 		phone := c.Param("phone")
 		params := model.DeviceParams{}
-		if err := c.ShouldBind(&params); err != nil {
+		if err := c.ShouldBindJSON(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-- 
2.43.0


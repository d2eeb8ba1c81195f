From 97d880534b9e2f55a3ee1654d3f1fdc7b296a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 01/35] fix: ignore truncated RTP packets instead of panicking

---
 h264rtpparser.go | 4 ++++
 hevcrtpparser.go | 4 ++++
 rtspclient.go    | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..3d3ae74 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -37,6 +37,10 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		{
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
+			if len(rtpData) < 2 {
+				// truncated fragmentation unit
+				return false, src, src[len(src):]
+			}
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
 			if 0 != startBit {
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..0ffd191 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -26,6 +26,10 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
 			// 3 (or 5) bytes, and skip over the first 1 (or 3) bytes.
+			if len(rtpData) < 3 {
+				// truncated fragmentation unit
+				return false, src, src[len(src):]
+			}
 			startBit := rtpData[2] & 0x80
 			endBit := rtpData[2] & 0x40
 			if 0 != startBit {
diff --git a/rtspclient.go b/rtspclient.go
index d931a87..8dc3564 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -155,6 +155,9 @@ func (session *RtspClientSession) HandleConn() {
 }
 
 func (session *RtspClientSession) parsingData(data []byte) {
+	if len(data) < PacketHeaderLen {
+		return
+	}
 	headerData := data[:4]
 	if headerData[0] == '$' {
 		session.parsingRtp(data)
@@ -166,6 +169,10 @@ func (session *RtspClientSession) parsingData(data []byte) {
 func (session *RtspClientSession) parsingRtp(data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
+	if len(rtpData) < RtpHeaderLen {
+		// truncated rtp packet
+		return
+	}
 
 	timestampBufBefore := rtpData[4:8]
 	reader := bytes.NewReader(timestampBufBefore)
-- 
2.43.0


From efe04b0f2b8474e5e74dde3d20497cfd60c9dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 02/35] fix: read the RTP marker bit from the packet, not from
 the unset result

---
 markrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From a9a894872d32096e54871acab9fa6b2d10b2e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 03/35] fix: read H.265 aggregation unit sizes as 16 bit
 numbers

---
 hevcrtpparser.go | 6 +++++-
 rtpparser.go     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 0ffd191..d2c6297 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -69,7 +69,11 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
+			if len(payload) < 2 {
+				// truncated aggregation unit
+				return len(payload), len(payload)
+			}
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..51f4d34 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,7 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
-- 
2.43.0


From 7c5c5587dd3421eb6cfa946d6a445230db7e36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 04/35] fix: split H.264 aggregation packets into their NAL
 units

---
 h264rtpparser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 3d3ae74..6b2fdcb 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -63,37 +63,38 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := naluHeader[0] & 0x1f
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		// truncated aggregation unit
+		return len(payload), len(payload)
+	}
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
-- 
2.43.0


From cf537044786a500a867132ec84bd12750c6cead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 05/35] fix: ignore truncated H.264 aggregation packets instead
 of panicking

---
 h264rtpparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 6b2fdcb..cfce759 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -60,6 +60,10 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		}
 	}
 
+	if len(rtpData) < skipHeaderLen {
+		// truncated aggregation packet
+		return isCompletesFrame, src, src[len(src):]
+	}
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-- 
2.43.0


From 001055f9339a34937ca2752007700d8804d687de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 06/35] fix: reject short RTSP responses and negative content
 lengths instead of panicking

---
 rtspparser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..bf454d7 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -29,7 +29,7 @@ const (
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	// rtp packet no context
-	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
+	if len(response) < 4 || (string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp") {
 		return errors.New("not rtsp packet")
 	}
 
@@ -46,6 +46,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	rtspResponse := response[:rtspEndPos]
 
 	// get status code
+	if rtspEndPos < len("RTSP/1.0 ")+3 {
+		return errors.New("no status code")
+	}
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
 	context.Status, _ = strconv.Atoi(strStatus)
 
@@ -61,6 +64,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
+			if context.contentLength < 0 {
+				context.contentLength = 0
+			}
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
-- 
2.43.0


From 986415ff4da2e9647455a81169a5ce38fd61003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 07/35] fix: keep RTSP header fields whose value contains a
 colon

---
 rtspparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index bf454d7..a402319 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -54,7 +54,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
-- 
2.43.0


From ecfc85c0c7651c0cbedfb95f8cbac0211475141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 08/35] fix: keep only the identifier of the RTSP session
 header

---
 rtspparser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index a402319..ff383e8 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -71,7 +71,10 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			if pos := strings.Index(theValue, ";"); pos != -1 {
+				theValue = theValue[:pos] // remove parameters, such as the timeout
+			}
+			context.sessionID = strings.TrimSpace(theValue)
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
-- 
2.43.0


From 0715d8c686df8f61a9c491110d1c43c24d2347d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 09/35] fix: read quoted and reordered WWW-Authenticate
 parameters

---
 rtspparser.go | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index ff383e8..a89de4b 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -93,12 +92,41 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
-	var realm string
-	var nonce string
-	var stale string
-	var authenticateType string
-
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
+	authenticateType := strings.TrimSpace(authenticateValue)
+	var params string
+	if pos := strings.Index(authenticateType, " "); pos != -1 {
+		params = authenticateType[pos+1:]
+		authenticateType = authenticateType[:pos]
+	}
+	realm := getAuthenticateParam(params, "realm")
+	nonce := getAuthenticateParam(params, "nonce")
+	stale := getAuthenticateParam(params, "stale")
 	return authenticateType, realm, nonce, stale
 }
+
+// getAuthenticateParam returns the value of a parameter of <name>=<value>, <name>="<value>", ...
+func getAuthenticateParam(params string, name string) string {
+	for {
+		pos := strings.Index(params, "=")
+		if pos == -1 {
+			return ""
+		}
+		key := strings.Trim(params[:pos], " ,")
+		params = params[pos+1:]
+		var value string
+		if strings.HasPrefix(params, "\"") {
+			params = params[1:]
+			pos = strings.Index(params, "\"")
+		} else {
+			pos = strings.Index(params, ",")
+		}
+		if pos == -1 {
+			value, params = params, ""
+		} else {
+			value, params = params[:pos], params[pos+1:]
+		}
+		if key == name {
+			return value
+		}
+	}
+}
-- 
2.43.0


From 9c09c16f1bacccbc229e500919b6177f67b8aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 10/35] fix: accept the largest interleaved frame and reject
 bodies over the buffer

---
 tcpnetwork/tcpnetwork.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..93f0f4b 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -33,7 +33,7 @@ const (
 
 const (
 	connConfDefaultSendTimeoutSec = 5
-	connConfMaxReadBufferLength   = 0xffff
+	connConfMaxReadBufferLength   = 4 + 0xffff // largest interleaved frame
 )
 
 // Connection TCP connection context
@@ -327,7 +327,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 		}
 		bodyLength = curBodyPos
 	} else if 0 != packetLength {
-		if packetLength > connection.maxReadBufferLength {
+		if packetLength > connection.maxReadBufferLength-bufStartPos {
 			return nil, errors.New("The stream data is too long")
 		}
 
@@ -352,6 +352,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
 	if 0 != contextLength {
+		if contextLength < 0 || contextLength > connection.maxReadBufferLength-bufStartPos {
+			return nil, errors.New("The stream data is too long")
+		}
 		// read context
 		if 0 != connection.readTimeoutSec {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
-- 
2.43.0


From 0fda97c1630db61d5b4bb48a594e83ac918283df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 11/35] fix: keep the stream in step after an empty interleaved
 frame

---
 rtpstreamprotocol.go       | 4 ++--
 tcpnetwork/tcpinterface.go | 2 +-
 tcpnetwork/tcpnetwork.go   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..8bbf16c 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -25,7 +25,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		var len uint16
 		err := binary.Read(reader, binary.BigEndian, &len)
 		if nil != err {
-			return 0, nil
+			return -1, nil
 		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
@@ -33,7 +33,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 	} else {
 		log.Print("header error")
 		log.Print(header)
-		return 0, nil
+		return -1, nil
 	}
 }
 
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..f592623 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,7 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// read the header length of the stream, negative: unknown header
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 93f0f4b..d848f64 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -326,7 +326,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
+	} else if packetLength >= 0 {
 		if packetLength > connection.maxReadBufferLength-bufStartPos {
 			return nil, errors.New("The stream data is too long")
 		}
-- 
2.43.0


From fc56780f0d100aa99d886da5639e196cae6b014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 12/35] fix: report a bad SDP instead of ending the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From e34baf9105acafb191a552a5a53b069326b6be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 13/35] fix: end the wait for a reply after the timeout

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 8dc3564..ce38062 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -401,7 +401,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			session.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 8240426d74f50181c8f8063fd331903cdd4df085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 14/35] fix: closing a session that never connected does
 nothing

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index ce38062..d65ec30 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -334,6 +334,9 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
+	if nil == session.tcpConn {
+		return
+	}
 	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
 		session.SendTeardown()
 		session.WaitRtspResponse()
-- 
2.43.0


From 0b69081e79317be8af8db76879f9603313e1f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 15/35] fix: close the session connection on a nil event

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index d65ec30..ef36030 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -120,7 +120,7 @@ func (session *RtspClientSession) HandleConn() {
 		}
 		if nil == event {
 			// channel closed, quit
-			event.Conn.Close()
+			session.tcpConn.Close()
 			return
 		}
 		switch event.EventType {
-- 
2.43.0


From 440e53ae1a62213eeb4dfd5d4e9e9accf42d254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 16/35] fix: send the start time of PLAY in a well-formed Range
 header

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..7bad709 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -107,7 +107,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From d71ad1e90b6e1a9644e290872dc2eaf7abb7766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 17/35] fix: send credentials with PAUSE

---
 rtsprequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtsprequest.go b/rtsprequest.go
index 7bad709..3c1026f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -90,6 +90,9 @@ func (session *RtspClientSession) SendPause() error {
 		"Session: %s\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
-- 
2.43.0


From 26393960d405e10dda7e88415af36f876a01ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 18/35] fix: name the session in TEARDOWN

---
 rtsprequest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 3c1026f..791823f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -140,7 +140,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"Session: %s\r\n" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 6b480ab2d3f4a7c1a22f0cfccbed1775f9585bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 19/35] fix: compute the SETUP digest over the requested URL

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 791823f..a3fbb54 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -72,7 +72,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
 	}
 	if nil != session.rtspContext.authenicator {
-		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", session.rtspContext.rtspURL)
+		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", inTrackURL)
 	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
-- 
2.43.0


From 6ce3e73d2954b18f939b180d027198db924b33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 20/35] fix: keep the part of a WebSocket message that does not
 fit the read buffer

---
 websocketconn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..6363bd9 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -8,16 +8,21 @@ import (
 )
 
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn   *websocket.Conn
+	remain []byte // part of the last message not read yet
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	if len(conn.remain) == 0 {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.remain = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.remain)
+	conn.remain = conn.remain[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
-- 
2.43.0


From 28a2b20b5841a99614efad78e613f4c2099b1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 21/35] fix: delegate WebSocket addresses and deadlines instead
 of recursing

---
 websocketconn.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index 6363bd9..36324ad 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -38,21 +38,24 @@ func (conn *WebsocketConn) Close() error {
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	if err := conn.conn.SetReadDeadline(t); nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From fc381b05fff8a947fd86e0693dc2549abb5368f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 22/35] fix: report the result of the handshake over WebSocket

---
 rtspclient.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index ef36030..f36cc8a 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -359,8 +359,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From dd7999f6b6b25c3bd6caefb246453b7f3009801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 23/35] fix: add the default port to IPv6 hosts

---
 rtspclient.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index f36cc8a..603413a 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -310,8 +309,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
 	if nil != urlInfo.User {
-- 
2.43.0


From e69cf3ad6127e1111d75a0537343c818304cdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 24/35] fix: accept messages as soon as the connection runs

---
 tcpnetwork/tcpnetwork.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index d848f64..9b21627 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -178,6 +178,7 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	connection.status = ConnStatusConnected
 	go connection.routineMain()
 }
 
@@ -209,7 +210,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From 5f1a069a18c0a6c7aed6608b5431e44f7c40c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 25/35] fix: keep the decoded repeat times

---
 sdp/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..0f90d53 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -888,6 +888,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		}
 		t.Offsets = append(t.Offsets, dd)
 	}
+	m.Timing[len(m.Timing)-1] = t
 	return nil
 }
 
-- 
2.43.0


From 62b08bdfa31450b3b5dd0b9358397154d4baa8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 26/35] fix: store the TTL of a media connection in the media

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 0f90d53..5873530 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,7 +641,7 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
-- 
2.43.0


From 8f5455abc8397b7b8803cc678be88e97a35ba9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 27/35] fix: decode the number of IPv6 addresses

---
 sdp/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 5873530..4563f2b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -648,9 +648,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 50d63b3dd22b9d4562e282d89b18012b5ea6604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 28/35] fix: reject TTLs and address counts that do not fit a
 byte

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 4563f2b..ec22b4b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -514,7 +514,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 17fea9fbd3cd1ca61418e6646a25edf7f7bdf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 29/35] fix: reject blank and out of range intervals

---
 sdp/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index ec22b4b..c348562 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -820,6 +821,10 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 }
 
 func decodeInterval(b []byte, v *time.Duration) error {
+	if len(b) == 0 {
+		err := io.ErrUnexpectedEOF
+		return errors.Wrap(err, "blank duration is invalid")
+	}
 	if len(b) == 1 && b[0] == '0' {
 		*v = 0
 		return nil
@@ -852,6 +857,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 	if err := decodeInt(b, &val); err != nil {
 		return errors.Wrap(err, "unable to decode value")
 	}
+	if limit := int(math.MaxInt64 / unit); val > limit || val < -limit {
+		return errors.Errorf("duration %d is out of range", val)
+	}
 	*v = time.Duration(val) * unit
 	return nil
 }
-- 
2.43.0


From a8136edf63a0435d4461942ead01da853349613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 30/35] fix: accept more than one time description

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index c348562..5496647 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -383,6 +383,10 @@ func (d *Decoder) decodeTiming(m *Message) error {
 	d.sPos = 0
 	d.section = sectionTime
 	for d.next() {
+		if d.t == TypeTiming {
+			// one more time description
+			d.sPos = 0
+		}
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
-- 
2.43.0


From 7799d91c389783892ae3eb9ce24216e3cdab0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 31/35] fix: accept time zone adjustments after the time
 descriptions

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 5496647..255ee68 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -290,6 +290,9 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if t == TypeTimeZones {
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
-- 
2.43.0


From 5896519aeb3f735ab4154bad2bdbaf45eba7fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 32/35] fix: separate format parameters at semicolons

---
 sdpparser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..f672804 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -110,14 +110,16 @@ func getFmtParame(sdpFmtp string) map[string]string {
 
 	fieldsFmtp := strings.Split(sdpFmtp, " ")
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
+		fields := strings.Split(field, ";")
 		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
+			if "" == fieldTemp {
+				continue
+			}
 			index := strings.Index(fieldTemp, "=")
 			if index == -1 {
 				fmtParame[fieldTemp] = ""
 			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
+				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]
 			}
 		}
 	}
-- 
2.43.0


From 1525dbd9b989f7897d2e50eb3859561bc96b1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 33/35] fix: take the first payload format of a media with
 several

---
 sdpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index f672804..84520a9 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,7 +59,7 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strings.Split(meidaInfo.Description.Format, " ")[0])
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
 			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
-- 
2.43.0


From 7ae88566f4e6f2aaa71e022191b4171dd4dd1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 34/35] fix: a reply no request waits for must not stop the
 receive path

---
 rtspclient.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 603413a..8144d18 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -202,10 +202,19 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case session.rtspResponseQueue <- rtspResponseContext:
+		{
+			// nothing
+		}
+	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
+		{
+			// no request waits for this response, go on with the data that follows
+			log.Printf("unexpected rtsp response, drop it")
+		}
 	}
-	session.rtspResponseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
-- 
2.43.0


From 7eaf9087e01a3be41463f4f6152a7bf06e31420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 35/35] fix: closing a websocket connection must close it, so
 that reads under way return

---
 websocketconn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/websocketconn.go b/websocketconn.go
index 36324ad..acfe1d0 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -34,7 +34,12 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	err := conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	closeErr := conn.conn.Close()
+	if nil != err {
+		return err
+	}
+	return closeErr
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-- 
2.43.0


From cf1685376aa3d72a53fe56c17cb9f9c272d4cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 01/58] fix: messages sent right after Connection.Run were
 dropped

The status only became connected inside the new goroutine, after the handler
had taken the connected event; a Send before that was silently ignored, so
the first DESCRIBE of a session was lost.
---
 tcpnetwork/tcpnetwork.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..6d49c2d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -178,6 +178,8 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	// connected before the routines start, so that nothing sent right after Run is lost
+	connection.status = ConnStatusConnected
 	go connection.routineMain()
 }
 
@@ -209,7 +211,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From ba1e8633df8ff4c67c7af6bc160eeee842b81a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 02/58] fix: Send or Close during teardown panicked on the
 closed send queue

The teardown closed and replaced sendMsgQueue while senders could be waiting
on it (panic: send on closed channel) and could leave the send routine
waiting on the replacement forever. Signal the end through a quit channel.
---
 tcpnetwork/tcpnetwork.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 6d49c2d..acb7c0c 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -42,6 +42,7 @@ type Connection struct {
 	connRW              *bufio.ReadWriter
 	status              int
 	sendMsgQueue        chan []byte
+	quit                chan struct{} // closed when the connection is torn down
 	sendBufferSize      int
 	sendTimeoutSec      int
 	readTimeoutSec      int
@@ -72,6 +73,7 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		connRW:              bufio.NewReadWriter(bufio.NewReaderSize(c, connConfMaxReadBufferLength), bufio.NewWriterSize(c, connConfMaxReadBufferLength)),
 		status:              ConnStatusNone,
 		sendMsgQueue:        make(chan []byte, sendBufferSize),
+		quit:                make(chan struct{}),
 		sendBufferSize:      sendBufferSize,
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
 		maxReadBufferLength: connConfMaxReadBufferLength,
@@ -100,6 +102,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// the connection is gone
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -151,6 +157,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// the connection is gone
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -195,9 +205,8 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
+		// stop the send routine and everybody waiting for room in the queue
+		close(connection.quit)
 
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
@@ -223,13 +232,13 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.quit:
+			{
+				// torn down, quit
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
-- 
2.43.0


From 07a60510884102711757874914422a79c6b2042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 03/58] fix: a failed write left the connection open with
 nobody sending

The error of Flush was ignored and the send routine ended without closing the
connection, so later messages and Close were queued forever.
---
 tcpnetwork/tcpnetwork.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index acb7c0c..0f6e478 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -250,18 +250,24 @@ func (connection *Connection) routineSend() error {
 				if nil != headerBytes {
 					// write header first
 					_, err = connection.connRW.Write(headerBytes)
+					if err == nil {
+						err = connection.connRW.Flush()
+					}
 					if err != nil {
 						log.Println("Conn write error:", err)
+						connection.close()
 						return err
 					}
-					connection.connRW.Flush()
 				}
 				_, err = connection.connRW.Write(sendMsg)
+				if err == nil {
+					err = connection.connRW.Flush()
+				}
 				if err != nil {
 					log.Println("Conn write error:", err)
+					connection.close()
 					return err
 				}
-				connection.connRW.Flush()
 			}
 		}
 	}
-- 
2.43.0


From b32a0803aecb905923ad31c46ad9e76312e977b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 04/58] fix: empty and maximum size interleaved frames broke
 the stream

A frame of length 0 was taken for an unknown header, which swallowed whatever
followed it, and a frame longer than 65531 bytes overran the read buffer and
ended the connection.
---
 rtpstreamprotocol.go       | 4 ++--
 tcpnetwork/tcpinterface.go | 3 ++-
 tcpnetwork/tcpnetwork.go   | 9 ++++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..8bbf16c 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -25,7 +25,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		var len uint16
 		err := binary.Read(reader, binary.BigEndian, &len)
 		if nil != err {
-			return 0, nil
+			return -1, nil
 		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
@@ -33,7 +33,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 	} else {
 		log.Print("header error")
 		log.Print(header)
-		return 0, nil
+		return -1, nil
 	}
 }
 
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..0234f40 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,8 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// get the length of the body that follows the header, or the mark that ends it.
+	// a negative length means that the header is unknown
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 0f6e478..04917ca 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -274,8 +274,8 @@ func (connection *Connection) routineSend() error {
 }
 
 func (connection *Connection) routineRead() error {
-	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	// default buffer, room for the header and the longest body
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
@@ -342,7 +342,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
+	} else if packetLength >= 0 {
 		if packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
@@ -367,6 +367,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	bufStartPos += bodyLength
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
+	if contextLength < 0 || (0 != contextLength && contextLength > connection.maxReadBufferLength-bufStartPos) {
+		return nil, errors.New("The stream data is too long")
+	}
 	if 0 != contextLength {
 		// read context
 		if 0 != connection.readTimeoutSec {
-- 
2.43.0


From b8f343070c6ed479710c9c466b6697100f61fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 05/58] fix: an unanswered request blocked Play and Close
 forever

On timeout WaitRtspResponse called Close, which waited for a response again,
timed out again and so on, without ever closing the connection.
---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index d931a87..f721ff4 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -394,7 +394,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			session.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 7c341d8776860873aca6b62d863bbc79cbe06951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 06/58] fix: playing again from the disconnected handler broke
 the new connection

The queues were shared by all connections of a session and closed when the
handler of an old connection returned, which tore down (or crashed) a
connection opened meanwhile. Give every connection its own queues.
---
 rtspclient.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index f721ff4..7f34b38 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -98,22 +98,14 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
+func (session *RtspClientSession) HandleConn() {
+	session.handleConn(session.eventQueue, session.rtspResponseQueue)
 }
 
-func (session *RtspClientSession) HandleConn() {
-	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
-	}()
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, responseQueue chan *RtspResponseContext) {
+	defer close(responseQueue)
 	for {
-		event, ok := <-session.eventQueue
+		event, ok := <-eventQueue
 		if !ok {
 			// channel closed, quit
 			return
@@ -138,7 +130,7 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(event.Data, responseQueue)
 				}
 			}
 			break
@@ -154,12 +146,12 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(data []byte, responseQueue chan *RtspResponseContext) {
 	headerData := data[:4]
 	if headerData[0] == '$' {
 		session.parsingRtp(data)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(data, responseQueue)
 	}
 }
 
@@ -191,15 +183,15 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(data []byte, responseQueue chan *RtspResponseContext) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
+		responseQueue <- nil
 		return
 	}
-	session.rtspResponseQueue <- rtspResponseContext
+	responseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
@@ -318,10 +310,17 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
+	// the queues belong to this connection, the handler of the previous one may still be returning
+	eventQueue := make(chan *tcpnetwork.ConnEvent)
+	session.eventQueue = eventQueue
+	session.rtspResponseQueue = make(chan *RtspResponseContext)
+	session.rtspRequestInitial = true
+	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
+		eventQueue <- event
+	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.HandleConn()
+	go session.handleConn(eventQueue, session.rtspResponseQueue)
 
 	return session.sendRequest()
 }
-- 
2.43.0


From d477bd4b3db17ebfbb87dfbd6db8557eea341790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 07/58] fix: a response nobody waits for blocked the session
 forever

The routine that handles the received data waited until somebody took the
response; media, later responses and the disconnected event were stuck behind
it.
---
 rtspclient.go  | 11 +++++++----
 rtsprequest.go |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 7f34b38..c1f6024 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -188,10 +188,13 @@ func (session *RtspClientSession) parsingRtsp(data []byte, responseQueue chan *R
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		responseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case responseQueue <- rtspResponseContext:
+	default:
+		log.Print("response nobody waits for")
 	}
-	responseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
@@ -313,7 +316,7 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	// the queues belong to this connection, the handler of the previous one may still be returning
 	eventQueue := make(chan *tcpnetwork.ConnEvent)
 	session.eventQueue = eventQueue
-	session.rtspResponseQueue = make(chan *RtspResponseContext)
+	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	session.rtspRequestInitial = true
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
 		eventQueue <- event
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..1e74a02 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,6 +32,11 @@ func NewRtspClientContext() *RtspClientContext {
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.rtspRequestInitial = false
+	select {
+	case <-session.rtspResponseQueue:
+		// nobody waited for that response, it does not belong to this request
+	default:
+	}
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
 }
-- 
2.43.0


From ad4ee81ad67f1e7064499f0325401c5e78855e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 08/58] fix: Close crashed on a session that was never
 connected

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index c1f6024..cbe0dd0 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -329,6 +329,9 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
+	if nil == session.tcpConn {
+		return
+	}
 	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
 		session.SendTeardown()
 		session.WaitRtspResponse()
-- 
2.43.0


From fe5dabc765afbf6c0098aa8b11ea09df189204ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 09/58] fix: media received during SETUP crashed the process

The channel map was read by the receiving routine while the handshake added
to it (fatal error: concurrent map read and map write).
---
 rtspclient.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index cbe0dd0..06bf87e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -79,6 +80,7 @@ type RtspClientSession struct {
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
 	rtpChannelMap      map[int]*RtpParser
+	rtpChannelLock     sync.Mutex
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
 }
@@ -169,7 +171,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
+	session.rtpChannelLock.Lock()
 	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.rtpChannelLock.Unlock()
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -261,7 +265,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
+		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.rtpChannelLock.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
-- 
2.43.0


From a002579242501934a520fcb79c6357968422fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 10/58] fix: tracks and session id of an earlier connection
 survived a new Play

---
 rtspclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 06bf87e..57fd8e3 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -217,6 +217,11 @@ func (session *RtspClientSession) sendRequest() error {
 
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
+	session.rtspContext.sessionID = ""
+	session.rtpChannelLock.Lock()
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelLock.Unlock()
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 
 	session.SendDescribe()
 
@@ -251,7 +256,6 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
-	session.rtspContext.sessionID = ""
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
-- 
2.43.0


From 46ba159f94fcaaabe194d036f4b16f1ec7f2d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 11/58] fix: credentials of one URL were sent to the server of
 the next one

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 57fd8e3..c4ae021 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -312,6 +312,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.address += ":554"
 	}
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From a59f27cd782f48128f4641713dc81a659987cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 12/58] fix: the default port was not added to IPv6 hosts

---
 rtspclient.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index c4ae021..b10b354 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -308,8 +307,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
 	session.username = ""
-- 
2.43.0


From 58bd32e141ac3d993eeb9e3ef3a1311063232eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 13/58] fix: TEARDOWN had no session id and others sent it with
 its parameters

The id was echoed with its leading blank and parameters (;timeout=60), sent
empty before it was known, forgotten if a later SETUP reply did not repeat it
and missing from TEARDOWN.
---
 rtspclient.go  |  4 +++-
 rtspparser.go  |  3 ++-
 rtsprequest.go | 22 +++++++++++++++-------
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index b10b354..b84189c 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -281,7 +281,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..c12a5a0 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -65,7 +65,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// <session-id>[;timeout=<sec>]
+			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
diff --git a/rtsprequest.go b/rtsprequest.go
index 1e74a02..fe3a734 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -41,6 +41,13 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 	session.rtspContext.cseq++
 }
 
+func (session *RtspClientSession) sessionHeader() string {
+	if "" == session.rtspContext.sessionID {
+		return ""
+	}
+	return fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+}
+
 func (session *RtspClientSession) SendDescribe() error {
 	if !session.rtspRequestInitial {
 		return errors.New("waiting last request Reply")
@@ -68,10 +75,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n" +
 		"%s" +
-		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionID, inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.sessionHeader(), inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -92,8 +99,8 @@ func (session *RtspClientSession) SendPause() error {
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	request += "\r\n"
 	session.sendRequst([]byte(request))
@@ -117,11 +124,11 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"%s" +
 		"%s" +
 		"x-prebuffer: maxtime=3.0\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, strStartTime, strSpeed, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), strStartTime, strSpeed, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -142,7 +149,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From cfb38417a3726cd86b0e08e7a63b28d52f21f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 14/58] fix: PAUSE was sent without authorization

---
 rtsprequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtsprequest.go b/rtsprequest.go
index fe3a734..80f7ab9 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -102,6 +102,9 @@ func (session *RtspClientSession) SendPause() error {
 		"%s" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
-- 
2.43.0


From b52ddd0aa6bcc1c1ff2dda46497947822f3465bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 15/58] fix: PLAY with a start time sent a garbled Range and
 dropped the speed

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 80f7ab9..14c176c 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -122,7 +122,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From 3d1e30a17638869d27ab79aad76186d2d6c2ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 16/58] fix: short responses and negative content lengths
 crashed the parser

---
 rtspparser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index c12a5a0..3c2604a 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -29,7 +29,7 @@ const (
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	// rtp packet no context
-	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
+	if len(response) < 4 || (string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp") {
 		return errors.New("not rtsp packet")
 	}
 
@@ -46,6 +46,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	rtspResponse := response[:rtspEndPos]
 
 	// get status code
+	if len(rtspResponse) < len("RTSP/1.0 200\r\n\r\n") {
+		return errors.New("no status code")
+	}
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
 	context.Status, _ = strconv.Atoi(strStatus)
 
@@ -61,6 +64,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
+			if context.contentLength < 0 {
+				return errors.New("bad content length")
+			}
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
-- 
2.43.0


From dbe806b30e4213556ce01e46307cee4b82bacf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 17/58] fix: response headers with a colon in their value were
 ignored

---
 rtspparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 3c2604a..f9b23b9 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -54,7 +54,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
-- 
2.43.0


From 8d3bb2cf6711af0f92ec6d8c03abd6d60833346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 18/58] fix: challenges with blanks in the realm or other
 parameter orders failed

The realm was cut at its first blank (e.g. "LIVE555 Streaming Media") and the
nonce lost with it; likewise without blanks after the commas or with the
parameters in another order.
---
 rtspparser.go | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index f9b23b9..be6bd9f 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -91,12 +90,38 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
-	var realm string
-	var nonce string
-	var stale string
-	var authenticateType string
+	// <type> <name>="<value>", <name>=<value>, ...
+	authenticateValue = strings.TrimSpace(authenticateValue)
+	typeEnd := strings.Index(authenticateValue, " ")
+	if typeEnd == -1 {
+		return authenticateValue, "", "", ""
+	}
+
+	params := make(map[string]string)
+	rest := authenticateValue[typeEnd:]
+	for {
+		rest = strings.TrimLeft(rest, " ,")
+		nameEnd := strings.Index(rest, "=")
+		if nameEnd == -1 {
+			break
+		}
+		name := strings.ToLower(strings.TrimSpace(rest[:nameEnd]))
+		rest = strings.TrimLeft(rest[nameEnd+1:], " ")
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
-	return authenticateType, realm, nonce, stale
+		valueEnd := ","
+		if strings.HasPrefix(rest, "\"") {
+			valueEnd = "\""
+			rest = rest[1:]
+		}
+		value := strings.SplitN(rest, valueEnd, 2)
+		if valueEnd == "," {
+			value[0] = strings.TrimSpace(value[0])
+		}
+		params[name] = value[0]
+		if len(value) == 1 {
+			break
+		}
+		rest = value[1]
+	}
+	return authenticateValue[:typeEnd], params["realm"], params["nonce"], params["stale"]
 }
-- 
2.43.0


From 334c92b65de114269e2d5ace9bd73f0addee8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 19/58] fix: a bad session description terminated the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From ecc638fdb3151e33b15d4966298b5166b2062c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 20/58] fix: short media packets crashed the process or spoiled
 the next unit

---
 h264rtpparser.go | 5 +++++
 hevcrtpparser.go | 6 +++++-
 rtspclient.go    | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..1ccc5ff 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -9,6 +9,11 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	}
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
+	if (packetNALUnitType >= 25 && packetNALUnitType <= 27 && len(rtpData) < 3) ||
+		(packetNALUnitType >= 28 && packetNALUnitType <= 29 && len(rtpData) < 2) {
+		// too short for its own headers, nothing to deliver
+		return true, src[:RtpHeaderLen], src[len(src):]
+	}
 	if packetNALUnitType > 1 && packetNALUnitType <= 23 {
 		packetNALUnitType = 1
 	}
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..06ab9c3 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -5,11 +5,15 @@ type HevcRtpParser struct {
 
 func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+2 {
-		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], src[len(src):]
 	}
 
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x7E) >> 1
+	if packetNALUnitType == 49 && len(rtpData) < 3 {
+		// too short for the FU header, nothing to deliver
+		return false, src[:RtpHeaderLen], src[len(src):]
+	}
 
 	var skipHeaderLen int
 	switch packetNALUnitType {
diff --git a/rtspclient.go b/rtspclient.go
index b84189c..4af57c0 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -157,6 +157,10 @@ func (session *RtspClientSession) parsingData(data []byte, responseQueue chan *R
 }
 
 func (session *RtspClientSession) parsingRtp(data []byte) {
+	if len(data) < 4+RtpHeaderLen {
+		// no complete rtp header
+		return
+	}
 	header := data[:4]
 	rtpData := data[4:]
 
-- 
2.43.0


From 69a75db20980579668c79197f0ec05f084f3ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 21/58] fix: aggregation packets were delivered unsplit or
 split at wrong sizes

---
 h264rtpparser.go | 15 +++++++--------
 hevcrtpparser.go |  4 +++-
 rtpparser.go     |  6 +++++-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 1ccc5ff..de52e12 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -64,37 +64,36 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := naluHeader[0] & 0x1f
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) >= naluHeaderSize {
+		naluSize = int(payload[0])<<8 | int(payload[1])
+	}
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 06ab9c3..23f9263 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -69,8 +69,10 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
 			naluHeaderSize = 2
+			if len(payload) >= naluHeaderSize {
+				naluSize = int(payload[0])<<8 | int(payload[1])
+			}
 		}
 		break
 	default:
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..a66ef83 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,11 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluHeaderSize > len(payload) {
+		// the aggregation packet is cut short
+		return nil, len(payload)
+	}
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
-- 
2.43.0


From 6bb7e87f2b911e614d82c23d36cbdd90fde1d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 22/58] fix: the first bbw packet crashed the process

---
 markrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From 0b884cb731dc03c1b1c2384dca46e2dab0c0c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 23/58] fix: sdp repeat times were parsed and thrown away

---
 sdp/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..0f90d53 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -888,6 +888,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		}
 		t.Offsets = append(t.Offsets, dd)
 	}
+	m.Timing[len(m.Timing)-1] = t
 	return nil
 }
 
-- 
2.43.0


From c370c71cbe7b2da85814808e0e14555416450d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 24/58] fix: sdp media TTL was stored in the session's
 connection data

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 0f90d53..5873530 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,7 +641,7 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
-- 
2.43.0


From 902d6b75f6596ea864c55270b5742dbbb81b1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 25/58] fix: sdp IPv6 addresses with an address count were
 rejected

---
 sdp/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 5873530..4563f2b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -648,9 +648,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 8a016c330fdd37e1e3078b707c42d015804c3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 26/58] fix: sdp TTL and address count out of range were
 accepted

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 4563f2b..ec22b4b 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -514,7 +514,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From fecff2cf03d62456123bee9ecca558b91456d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 27/58] fix: sdp with several time descriptions or time zones
 after them was rejected

---
 sdp/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index ec22b4b..d747df0 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,6 +289,10 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if t == TypeTiming || t == TypeTimeZones {
+			// next time description, or the time zones that follow the last one
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
@@ -385,6 +389,10 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
+		if d.t == TypeTiming {
+			// next time description
+			d.sPos = 0
+		}
 		if !isZeroOrMore(d.t) {
 			d.sPos++
 		}
-- 
2.43.0


From 19b0bf9a7057d1a25267498ae35eba7007ae5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 28/58] fix: an empty sdp duration crashed the decoder

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index d747df0..f17ac7a 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -828,6 +828,10 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 }
 
 func decodeInterval(b []byte, v *time.Duration) error {
+	if len(b) == 0 {
+		err := io.ErrUnexpectedEOF
+		return errors.Wrap(err, "empty duration")
+	}
 	if len(b) == 1 && b[0] == '0' {
 		*v = 0
 		return nil
-- 
2.43.0


From 8c8064578dd89972564faad758f5f7ee4b0fedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 29/58] fix: fmtp parameters kept the separator or ran into
 each other

---
 sdpparser.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..5e55c9a 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -108,17 +108,15 @@ func getFramerateForFramerate(sdpFramerate string) int {
 func getFmtParame(sdpFmtp string) map[string]string {
 	fmtParame := make(map[string]string)
 
-	fieldsFmtp := strings.Split(sdpFmtp, " ")
-	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
-		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
-			index := strings.Index(fieldTemp, "=")
-			if index == -1 {
-				fmtParame[fieldTemp] = ""
-			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
-			}
+	fields := strings.FieldsFunc(sdpFmtp, func(r rune) bool {
+		return r == ' ' || r == ';'
+	})
+	for _, field := range fields {
+		index := strings.Index(field, "=")
+		if index == -1 {
+			fmtParame[field] = ""
+		} else {
+			fmtParame[field[:index]] = field[index+1:]
 		}
 	}
 	return fmtParame
-- 
2.43.0


From 9a84a4529b1f2edf03a6fe27ffb30325823f8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 30/58] fix: media with several formats were taken for PCMU

---
 sdpparser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 5e55c9a..c396002 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,10 +59,12 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		// the first format is the preferred one
+		payloadFormat := strings.SplitN(meidaInfo.Description.Format, " ", 2)[0]
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(payloadFormat)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getAttributeForPayload(meidaInfo.Attributes.Values("rtpmap"), payloadFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -88,7 +90,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		sdpFmtp := getAttributeForPayload(meidaInfo.Attributes.Values("fmtp"), payloadFormat)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -99,6 +101,19 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+func getAttributeForPayload(values []string, payloadFormat string) string {
+	// Check for a "a=rtpmap:<fmt> ..." or "a=fmtp:<fmt> ..." line
+	for _, value := range values {
+		if strings.HasPrefix(value, payloadFormat+" ") {
+			return value
+		}
+	}
+	if len(values) > 0 {
+		return values[0]
+	}
+	return ""
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From 1dd801d20b7436ecd04da94d14b1cb3db137994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 31/58] fix: addresses and deadlines of a WebSocket connection
 recursed for ever

---
 websocketconn.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..335f885 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -33,21 +33,25 @@ func (conn *WebsocketConn) Close() error {
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	err := conn.conn.SetReadDeadline(t)
+	if nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From ce763a5f0a56e90db42be433c80492f929fb6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 32/58] fix: WebSocket messages longer than the read buffer
 crashed the process

---
 websocketconn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index 335f885..9288ff7 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -8,16 +8,21 @@ import (
 )
 
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn   *websocket.Conn
+	unread []byte // rest of the last message
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for len(conn.unread) == 0 {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.unread = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.unread)
+	conn.unread = conn.unread[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
-- 
2.43.0


From 2f822fc0541cd01d97cee87a6fd87cba2a5d153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 33/58] fix: closing a session left the WebSocket open

---
 websocketconn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/websocketconn.go b/websocketconn.go
index 9288ff7..05b24ca 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -7,6 +7,8 @@ import (
 	"github.com/gorilla/websocket"
 )
 
+const closeMessageTimeout = time.Second
+
 type WebsocketConn struct {
 	conn   *websocket.Conn
 	unread []byte // rest of the last message
@@ -34,7 +36,9 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	// the control message does not wait for the writer
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(closeMessageTimeout))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-- 
2.43.0


From 634cb07008965a6de785afa0975634e3a74c8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 34/58] fix: PlayUseWebsocket reported success whatever the
 server answered

---
 rtspclient.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 4af57c0..8d524de 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -371,8 +371,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From c8c2155d70ee3d2bbeafd5474247c49132fd16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 35/58] fix: PlayUseWebsocket on a connected session abandoned
 its connection

---
 rtspclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 8d524de..d790781 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -357,6 +357,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
-- 
2.43.0


From 4e0efdd591b40e908e19d0c72f87089c753a6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 36/58] fix: a timeout on the previous connection closed the
 next one

---
 rtspclient.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index d790781..356a7fa 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -346,14 +346,16 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
-	if nil == session.tcpConn {
+	// the session may be connected again before the response or the timeout
+	tcpConn := session.tcpConn
+	if nil == tcpConn {
 		return
 	}
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
+	if tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
 		session.SendTeardown()
 		session.WaitRtspResponse()
 	}
-	session.tcpConn.Close()
+	tcpConn.Close()
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
@@ -405,6 +407,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 	defer func() {
 		session.rtspRequestInitial = true
 	}()
+	tcpConn := session.tcpConn
 
 	select {
 	case response, ok := <-session.rtspResponseQueue:
@@ -419,7 +422,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.tcpConn.Close()
+			tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 486b5f24bb8fd017a68f7214d577d8ec82b8ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:03 +0000
Subject: [PATCH 37/58] fix: relative control URLs that begin with rtsp were
 taken for absolute

---
 rtspclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 356a7fa..34df81c 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -8,6 +8,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -261,7 +262,8 @@ func (session *RtspClientSession) sendRequest() error {
 
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		schemeEnd := strings.Index(strTrackURL, "://")
+		if schemeEnd == -1 || !strings.HasPrefix(strings.ToLower(strTrackURL[:schemeEnd]), "rtsp") {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
-- 
2.43.0


From 11aacc9677e84bac95e4ddf0010b685d976a347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:28 +0000
Subject: [PATCH 38/58] fix: Close between two requests of Play made Play wait
 for the reply to TEARDOWN

---
 rtspclient.go  | 27 +++++++++++++++++++--------
 rtsprequest.go | 38 +++++++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 34df81c..de04e77 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -71,6 +71,7 @@ type RtspClientSession struct {
 	password           string
 	address            string
 	rtspRequestInitial bool
+	rtspRequestLock    sync.Mutex
 	timeoutSec         int
 	rtspContext        *RtspClientContext
 	dataHandle         func(*RtspData)
@@ -227,7 +228,10 @@ func (session *RtspClientSession) sendRequest() error {
 	session.rtpChannelLock.Unlock()
 	session.RtpMediaMap = make(map[int]MediaSubsession)
 
-	session.SendDescribe()
+	errorInfo = session.SendDescribe()
+	if nil != errorInfo {
+		return errorInfo
+	}
 
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
@@ -244,7 +248,10 @@ func (session *RtspClientSession) sendRequest() error {
 			session.rtspContext.authenicator.password = session.password
 		}
 
-		session.SendDescribe()
+		errorInfo = session.SendDescribe()
+		if nil != errorInfo {
+			return errorInfo
+		}
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
 			return errorInfo
@@ -278,7 +285,10 @@ func (session *RtspClientSession) sendRequest() error {
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
 		session.rtpChannelLock.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
-		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		errorInfo = session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		if nil != errorInfo {
+			return errorInfo
+		}
 
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
@@ -292,7 +302,10 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 	}
 
-	session.SendPlay(0, 1)
+	errorInfo = session.SendPlay(0, 1)
+	if nil != errorInfo {
+		return errorInfo
+	}
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
 		return errorInfo
@@ -336,7 +349,7 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	eventQueue := make(chan *tcpnetwork.ConnEvent)
 	session.eventQueue = eventQueue
 	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
-	session.rtspRequestInitial = true
+	session.endRequest()
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
 		eventQueue <- event
 	})
@@ -406,9 +419,7 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 }
 
 func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, error) {
-	defer func() {
-		session.rtspRequestInitial = true
-	}()
+	defer session.endRequest()
 	tcpConn := session.tcpConn
 
 	select {
diff --git a/rtsprequest.go b/rtsprequest.go
index 14c176c..dcf7cb3 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -29,9 +29,25 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
+// one request at a time, also if it is Close that comes between the requests of Play
+func (session *RtspClientSession) beginRequest() error {
+	session.rtspRequestLock.Lock()
+	defer session.rtspRequestLock.Unlock()
+	if !session.rtspRequestInitial {
+		return errors.New("waiting last request Reply")
+	}
+	session.rtspRequestInitial = false
+	return nil
+}
+
+func (session *RtspClientSession) endRequest() {
+	session.rtspRequestLock.Lock()
+	session.rtspRequestInitial = true
+	session.rtspRequestLock.Unlock()
+}
+
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
-	session.rtspRequestInitial = false
 	select {
 	case <-session.rtspResponseQueue:
 		// nobody waited for that response, it does not belong to this request
@@ -49,8 +65,8 @@ func (session *RtspClientSession) sessionHeader() string {
 }
 
 func (session *RtspClientSession) SendDescribe() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 	request := fmt.Sprintf(("DESCRIBE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
@@ -69,8 +85,8 @@ func (session *RtspClientSession) SendDescribe() error {
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
@@ -93,8 +109,8 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 }
 
 func (session *RtspClientSession) SendPause() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
@@ -111,8 +127,8 @@ func (session *RtspClientSession) SendPause() error {
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	var strSpeed string
@@ -146,8 +162,8 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 }
 
 func (session *RtspClientSession) SendTeardown() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	if err := session.beginRequest(); nil != err {
+		return err
 	}
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
-- 
2.43.0


From 91ff849e5c043875edd179397e74d9baa6b79d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 39/58] fix: a Play still under way disturbed the one started
 from the disconnected handler

---
 rtspclient.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index de04e77..560b0f4 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -102,11 +102,16 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 }
 
 func (session *RtspClientSession) HandleConn() {
-	session.handleConn(session.eventQueue, session.rtspResponseQueue)
+	session.handleConn(session.eventQueue, session.rtspResponseQueue, nil)
 }
 
-func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, responseQueue chan *RtspResponseContext) {
-	defer close(responseQueue)
+// handshake is closed when sendRequest is done with the connection
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, responseQueue chan *RtspResponseContext, handshake chan struct{}) {
+	defer func() {
+		if nil != responseQueue {
+			close(responseQueue)
+		}
+	}()
 	for {
 		event, ok := <-eventQueue
 		if !ok {
@@ -127,6 +132,13 @@ func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEve
 		case tcpnetwork.ConnEventDisconnected:
 			{
 				log.Printf("conntion disconnected.")
+				// nobody waits for a response or uses the connection any longer
+				// when the handler of the event starts the next one
+				close(responseQueue)
+				responseQueue = nil
+				if nil != handshake {
+					<-handshake
+				}
 				session.sendEvent(RtspEventDisconnected, nil)
 				return
 			}
@@ -206,13 +218,14 @@ func (session *RtspClientSession) parsingRtsp(data []byte, responseQueue chan *R
 	}
 }
 
-func (session *RtspClientSession) sendRequest() error {
+func (session *RtspClientSession) sendRequest(handshake chan struct{}) error {
 	var response *RtspResponseContext
 	var errorInfo error
 
 	sendRequestSuccess := false
 
 	defer func() {
+		close(handshake)
 		if sendRequestSuccess == false {
 			session.sendEvent(RtspEventRequestError, nil)
 		} else {
@@ -355,9 +368,10 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.handleConn(eventQueue, session.rtspResponseQueue)
+	handshake := make(chan struct{})
+	go session.handleConn(eventQueue, session.rtspResponseQueue, handshake)
 
-	return session.sendRequest()
+	return session.sendRequest(handshake)
 }
 
 func (session *RtspClientSession) Close() {
-- 
2.43.0


From 8d647bc9845a3e2523cb10d1ec4539f05b58c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:47 +0000
Subject: [PATCH 40/58] fix: a wait on the previous connection let a second
 request out on the next one

---
 rtspclient.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 560b0f4..6a082f0 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -433,11 +433,17 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 }
 
 func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, error) {
-	defer session.endRequest()
 	tcpConn := session.tcpConn
+	responseQueue := session.rtspResponseQueue
+	defer func() {
+		// a request on the next connection is not answered by this
+		if responseQueue == session.rtspResponseQueue {
+			session.endRequest()
+		}
+	}()
 
 	select {
-	case response, ok := <-session.rtspResponseQueue:
+	case response, ok := <-responseQueue:
 		{
 			if !ok {
 				return nil, errors.New("rtsp connection disconnect")
-- 
2.43.0


From 7ce66d2be3eb33024dac6771020456468de968e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 41/58] fix: codec names were matched by case, so a track
 announced as h264 was not reassembled

---
 rtpparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index a66ef83..9c0d9f0 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -2,6 +2,7 @@ package rtspclient
 
 import (
 	"log"
+	"strings"
 )
 
 const (
@@ -66,7 +67,8 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 }
 
 func getRTPSourceHandler(codecName string) IRtpParseInterface {
-	switch codecName {
+	// encoding names are not case-sensitive
+	switch strings.ToUpper(codecName) {
 	case "H264":
 		{
 			return &H264RtpParser{}
@@ -75,7 +77,7 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		{
 			return &HevcRtpParser{}
 		}
-	case "bbw":
+	case "BBW":
 		{
 			return &MarkRtpParser{}
 		}
-- 
2.43.0


From c9849b0e4189e9f2f5fc19c7680b943f4781bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 42/58] fix: sdp of a session without a name ("s= ") was
 rejected

---
 sdp/sdp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..612821b 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -253,10 +253,17 @@ func (s *sliceScanner) Scan() bool {
 			// next line symbol not found
 			s.end = len(s.v)
 		}
-		s.line = bytes.TrimSpace(s.v[s.pos:s.end])
+		raw := s.v[s.pos:s.end]
+		s.line = bytes.TrimSpace(raw)
 		if len(s.line) == 0 {
 			continue
 		}
+		if string(s.line) == "s=" {
+			// "s= " is the name of a session without a name
+			if i := bytes.Index(raw, []byte("s= ")); i >= 0 {
+				s.line = raw[i : i+3]
+			}
+		}
 		return true
 	}
 }
-- 
2.43.0


From 4b283a13a2e21b96d0cf16b4235adc3423a23b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 43/58] fix: sdp lines with a type of several characters were
 taken for the type of the first

---
 sdp/sdp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index 612821b..b1f12c3 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -70,7 +70,11 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	r, _ := utf8.DecodeRune(b[:delimiter])
+	r, n := utf8.DecodeRune(b[:delimiter])
+	if n != delimiter {
+		// not exactly one character, which is no known type
+		r = utf8.RuneError
+	}
 	l.Type = Type(r)
 	l.Value = append(l.Value, b[delimiter+1:]...)
 	return nil
-- 
2.43.0


From 86095b7022198053d2af4652170d0611c1846a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 44/58] fix: sdp addresses with an empty TTL or count and ports
 with a third part were accepted

---
 sdp/decoder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index f17ac7a..c7dbe71 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -605,6 +605,10 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 			return errors.Wrap(err, "failed to decode connection data")
 		}
 	}
+	if (subField > 0 && len(first) == 0) || (subField > 1 && len(second) == 0) {
+		err = d.newFieldError("empty element in address")
+		return errors.Wrap(err, "failed to decode connection data")
+	}
 	switch d.section {
 	case sectionMedia:
 		d.m.Connection.IP, err = decodeIP(m.Connection.IP, base)
@@ -955,6 +959,11 @@ func (d *Decoder) decodeMediaDescription(m *Message) error {
 	if err = decodeInt(pp[0], &desc.Port); err != nil {
 		return errors.Wrap(err, "failed to decode port")
 	}
+	if len(pp) > 2 {
+		msg := fmt.Sprintf("unexpected subfields count %d > 2 in port", len(pp))
+		err = newSectionDecodeError(d.section, msg)
+		return errors.Wrap(err, "failed to decode media description")
+	}
 	if len(pp) > 1 {
 		if err = decodeInt(pp[1], &desc.PortsNumber); err != nil {
 			return errors.Wrap(err, "failed to decode ports number")
-- 
2.43.0


From 33e4e9723a8d8fc482901e893a689c7359f9aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 45/58] fix: a framerate with a blank after the colon was
 ignored

---
 sdpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index c396002..684d707 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -116,7 +116,7 @@ func getAttributeForPayload(values []string, payloadFormat string) string {
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
-	framerate, _ := strconv.Atoi(sdpFramerate)
+	framerate, _ := strconv.Atoi(strings.TrimSpace(sdpFramerate))
 	return framerate
 }
 
-- 
2.43.0


From dc1f104141ff539e44a11d13256680962f8d6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 46/58] fix: PlayUseWebsocket waited 45 seconds for a server
 that does not answer the upgrade

---
 rtspclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 6a082f0..c4856d9 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -397,7 +397,9 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 		return errors.New("url parse error: " + rtspURL)
 	}
 
-	websocketConn, _, err := websocket.DefaultDialer.Dial(webURL, nil)
+	dialer := *websocket.DefaultDialer
+	dialer.HandshakeTimeout = time.Duration(session.timeoutSec) * time.Second
+	websocketConn, _, err := dialer.Dial(webURL, nil)
 	if nil != err {
 		session.sendEvent(RtspEventDisconnected, nil)
 		log.Println("connect error: ", webURL)
-- 
2.43.0


From e1f458eb5a2b72f6b7e186dd27b228a2848143d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 47/58] fix: a stream protocol without message lengths notices
 the end of the stream

---
 tcpnetwork/tcpnetwork.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 04917ca..3c3d3fb 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -357,7 +357,10 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			return nil, err
 		}
 	} else {
-		allDataLen, _ := connection.connRW.Read(buf[bufStartPos:])
+		allDataLen, err := connection.connRW.Read(buf[bufStartPos:])
+		if err != nil {
+			return nil, err
+		}
 		bufStartPos += allDataLen
 		msg = make([]byte, bufStartPos)
 		copy(msg, buf[:bufStartPos])
-- 
2.43.0


From 12fbd22dd0cfb9ffa5a7f0b01f21dd914d927cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 48/58] fix: requests before the first connection crashed

---
 rtspclient.go  | 3 +++
 rtsprequest.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index c4856d9..8cffb39 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -436,6 +436,9 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 
 func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, error) {
 	tcpConn := session.tcpConn
+	if nil == tcpConn {
+		return nil, errors.New("not connected")
+	}
 	responseQueue := session.rtspResponseQueue
 	defer func() {
 		// a request on the next connection is not answered by this
diff --git a/rtsprequest.go b/rtsprequest.go
index dcf7cb3..4e91fb3 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -31,6 +31,9 @@ func NewRtspClientContext() *RtspClientContext {
 
 // one request at a time, also if it is Close that comes between the requests of Play
 func (session *RtspClientSession) beginRequest() error {
+	if nil == session.tcpConn {
+		return errors.New("not connected")
+	}
 	session.rtspRequestLock.Lock()
 	defer session.rtspRequestLock.Unlock()
 	if !session.rtspRequestInitial {
-- 
2.43.0


From 8b6c1a62a4f3e69020d16bebdd89ce93716d7ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 49/58] fix: a reply could end the wait of a request sent after
 it

---
 rtspclient.go  |  6 ++++--
 rtsprequest.go | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 8cffb39..922c74f 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -72,6 +72,7 @@ type RtspClientSession struct {
 	address            string
 	rtspRequestInitial bool
 	rtspRequestLock    sync.Mutex
+	rtspRequestNo      int
 	timeoutSec         int
 	rtspContext        *RtspClientContext
 	dataHandle         func(*RtspData)
@@ -362,7 +363,7 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	eventQueue := make(chan *tcpnetwork.ConnEvent)
 	session.eventQueue = eventQueue
 	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
-	session.endRequest()
+	session.endRequest(session.requestNo())
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
 		eventQueue <- event
 	})
@@ -440,10 +441,11 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		return nil, errors.New("not connected")
 	}
 	responseQueue := session.rtspResponseQueue
+	requestNo := session.requestNo()
 	defer func() {
 		// a request on the next connection is not answered by this
 		if responseQueue == session.rtspResponseQueue {
-			session.endRequest()
+			session.endRequest(requestNo)
 		}
 	}()
 
diff --git a/rtsprequest.go b/rtsprequest.go
index 4e91fb3..93b05ff 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -40,13 +40,24 @@ func (session *RtspClientSession) beginRequest() error {
 		return errors.New("waiting last request Reply")
 	}
 	session.rtspRequestInitial = false
+	session.rtspRequestNo++
 	return nil
 }
 
-func (session *RtspClientSession) endRequest() {
+// the number of the last request
+func (session *RtspClientSession) requestNo() int {
 	session.rtspRequestLock.Lock()
-	session.rtspRequestInitial = true
-	session.rtspRequestLock.Unlock()
+	defer session.rtspRequestLock.Unlock()
+	return session.rtspRequestNo
+}
+
+// a request that was sent since then is still waiting
+func (session *RtspClientSession) endRequest(requestNo int) {
+	session.rtspRequestLock.Lock()
+	defer session.rtspRequestLock.Unlock()
+	if requestNo == session.rtspRequestNo {
+		session.rtspRequestInitial = true
+	}
 }
 
 func (session *RtspClientSession) sendRequst(request []byte) {
-- 
2.43.0


From effc630b0a499c7d4605b9f2af03b258cea6ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 50/58] fix: media crashed a session without a data handler

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 922c74f..f4505d1 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -197,7 +197,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		header, payload := rtpParser.splitRtpPacket(rtpData)
 		for totalLength < len(payload) {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
-			if nil != nalu {
+			if nil != nalu && nil != session.dataHandle {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
-- 
2.43.0


From 24d41219b207bad00840c61c3bc619fe727013bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 51/58] fix: a handler that read the media map during the
 handshake could crash the process

---
 rtspclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index f4505d1..ac59dba 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -298,7 +298,13 @@ func (session *RtspClientSession) sendRequest(handshake chan struct{}) error {
 		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
 		session.rtpChannelLock.Unlock()
-		session.RtpMediaMap[rtpIndex] = media
+		// a handler may be looking at the map
+		mediaMap := make(map[int]MediaSubsession)
+		for channel, mediaInfo := range session.RtpMediaMap {
+			mediaMap[channel] = mediaInfo
+		}
+		mediaMap[rtpIndex] = media
+		session.RtpMediaMap = mediaMap
 		errorInfo = session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 		if nil != errorInfo {
 			return errorInfo
-- 
2.43.0


From 53ff901b7cc66044af9ca80e92290452555f1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 52/58] fix: the decoding order number of FU-B packets became
 part of the unit

---
 h264rtpparser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index de52e12..b326cf0 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -10,7 +10,7 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
 	if (packetNALUnitType >= 25 && packetNALUnitType <= 27 && len(rtpData) < 3) ||
-		(packetNALUnitType >= 28 && packetNALUnitType <= 29 && len(rtpData) < 2) {
+		(packetNALUnitType == 28 && len(rtpData) < 2) || (packetNALUnitType == 29 && len(rtpData) < 4) {
 		// too short for its own headers, nothing to deliver
 		return true, src[:RtpHeaderLen], src[len(src):]
 	}
@@ -51,6 +51,11 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			} else {
 				skipHeaderLen = 2
 			}
+			if packetNALUnitType == 29 {
+				// the decoding order number follows the FU header
+				rtpData[3] = rtpData[1]
+				skipHeaderLen += 2
+			}
 			isCompletesFrame = (endBit != 0)
 		}
 		break
-- 
2.43.0


From 6bca1e7281035654d9946c300b8f4f910b87a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 53/58] fix: contributing sources, header extensions and
 padding of RTP packets were taken for media

---
 rtpparser.go  | 24 ++++++++++++++++++++++++
 rtspclient.go |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/rtpparser.go b/rtpparser.go
index 9c0d9f0..c7f12f1 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -87,3 +87,27 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		}
 	}
 }
+
+// trimRtpPacket removes contributing sources, header extension and padding,
+// what is left is a header of RtpHeaderLen bytes and the payload
+func trimRtpPacket(packet []byte) []byte {
+	headerLen := RtpHeaderLen + 4*int(packet[0]&0x0f)
+	if 0 != packet[0]&0x10 {
+		headerLen += 4
+		if headerLen <= len(packet) {
+			headerLen += 4 * (int(packet[headerLen-2])<<8 | int(packet[headerLen-1]))
+		}
+	}
+
+	packetEnd := len(packet)
+	if 0 != packet[0]&0x20 {
+		packetEnd -= int(packet[packetEnd-1])
+	}
+	if headerLen > packetEnd {
+		// cut short, no payload
+		return packet[:RtpHeaderLen]
+	}
+
+	copy(packet[headerLen-RtpHeaderLen:], packet[:RtpHeaderLen])
+	return packet[headerLen-RtpHeaderLen : packetEnd]
+}
diff --git a/rtspclient.go b/rtspclient.go
index ac59dba..f4b09f2 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -177,7 +177,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		return
 	}
 	header := data[:4]
-	rtpData := data[4:]
+	rtpData := trimRtpPacket(data[4:])
 
 	timestampBufBefore := rtpData[4:8]
 	reader := bytes.NewReader(timestampBufBefore)
-- 
2.43.0


From 12149b89a0eb64ccdffbf30447ecdceb3987e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 54/58] fix: a content length after a tab was ignored, so the
 body was taken for garbage

---
 rtspparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index be6bd9f..3a04175 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -61,7 +61,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		theKey = strings.Replace(theKey, " ", "", -1)
 		theValue := keyValue[1]
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
+			theValue = strings.TrimSpace(strings.Replace(theValue, " ", "", -1))
 			context.contentLength, _ = strconv.Atoi(theValue)
 			if context.contentLength < 0 {
 				return errors.New("bad content length")
-- 
2.43.0


From 8bf6a92ef8af6672853c0fe8998b4d4c587d9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 55/58] fix: a challenge whose scheme is not written as Digest
 or Basic was not answered

---
 rtspparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 3a04175..52291cb 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -74,12 +74,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
-- 
2.43.0


From 5724a0875f1cfc8f28cbe93d835d15f5ee53696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 56/58] fix: a digest challenge of another algorithm than MD5
 displaced the one that can be answered

---
 rtspparser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 52291cb..14f652b 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -73,8 +73,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			// <session-id>[;timeout=<sec>]
 			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
-			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
+			authenticateType, realm, nonce, algorithm := parsingAuthenticate(theValue)
 			if strings.EqualFold("Digest", authenticateType) {
+				if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
+					// there may be another challenge that can be answered
+					continue
+				}
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
@@ -123,5 +127,5 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 		}
 		rest = value[1]
 	}
-	return authenticateValue[:typeEnd], params["realm"], params["nonce"], params["stale"]
+	return authenticateValue[:typeEnd], params["realm"], params["nonce"], params["algorithm"]
 }
-- 
2.43.0


From 60b9f6a3cd36ab0a59e982af65a7fadbf9465fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 57/58] fix: a description with a bandwidth type other than CT
 and AS was refused

---
 sdp/decoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index c7dbe71..56205d8 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -685,18 +685,11 @@ func (d *Decoder) decodeBandwidth(m *Message) error {
 		err := newSectionDecodeError(d.section, msg)
 		return errors.Wrap(err, "failed to decode bandwidth")
 	}
+	// types other than CT and AS (TIAS, RS, RR, X-...) are no error
 	var (
-		t BandwidthType
+		t = BandwidthType(k)
 		n int
 	)
-	switch bandWidthType := BandwidthType(k); bandWidthType {
-	case BandwidthApplicationSpecific, BandwidthConferenceTotal:
-		t = bandWidthType
-	default:
-		msg := fmt.Sprintf("bad bandwidth type %s", k)
-		err = newSectionDecodeError(d.section, msg)
-		return errors.Wrap(err, "failed to decode bandwidth")
-	}
 	if n, err = strconv.Atoi(v); err != nil {
 		return errors.Wrap(err, "failed to convert decode bandwidth")
 	}
-- 
2.43.0


From 3fa39c2ed469931adbf81bee2ded12ef3814b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 58/58] fix: an origin whose session id is a 64-bit NTP
 timestamp was refused

---
 sdp/decoder.go | 17 +++++++++++++++--
 sdp/fields.go  |  8 ++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 56205d8..c978c99 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -760,6 +760,19 @@ func decodeInt(v []byte, i *int) error {
 	return err
 }
 
+// decodeID decodes an unsigned number that may take all the bits of an int,
+// as the recommended 64-bit NTP timestamps do.
+func decodeID(v []byte, i *int) error {
+	err := decodeInt(v, i)
+	if err != nil {
+		var u uint64
+		if u, err = strconv.ParseUint(b2s(v), 10, strconv.IntSize); err == nil {
+			*i = int(u)
+		}
+	}
+	return err
+}
+
 func (d *Decoder) subfields() ([][]byte, error) {
 	n := bytes.Count(d.v, []byte{fieldsDelimiter})
 	result := make([][]byte, n+1)
@@ -805,10 +818,10 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 	if err = decodeString(p[0], &o.Username); err != nil {
 		return errors.Wrap(err, "failed to decode username")
 	}
-	if err = decodeInt(p[1], &o.SessionID); err != nil {
+	if err = decodeID(p[1], &o.SessionID); err != nil {
 		return errors.Wrap(err, "failed to decode sess-id")
 	}
-	if err = decodeInt(p[2], &o.SessionVersion); err != nil {
+	if err = decodeID(p[2], &o.SessionVersion); err != nil {
 		return errors.Wrap(err, "failed to decode sess-version")
 	}
 	if err = decodeString(p[3], &o.NetworkType); err != nil {
diff --git a/sdp/fields.go b/sdp/fields.go
index a11472b..df8da9e 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -268,8 +268,8 @@ func (c ConnectionData) appendAddress(v []byte) []byte {
 // See https://tools.ietf.org/html/rfc4566#section-5.2.
 type Origin struct {
 	Username       string // <username>
-	SessionID      int    // <sess-id>
-	SessionVersion int    // <sess-version>
+	SessionID      int    // <sess-id>, the bits of an unsigned number
+	SessionVersion int    // <sess-version>, the bits of an unsigned number
 	NetworkType    string // <nettype>
 	AddressType    string // <addrtype>
 	Address        string // <unicast-address>
@@ -310,8 +310,8 @@ func (o Origin) Equal(b Origin) bool {
 func (s Session) AddOrigin(o Origin) Session {
 	v := make([]byte, 0, 2048)
 	v = appendSpace(append(v, o.Username...))
-	v = appendSpace(appendInt(v, o.SessionID))
-	v = appendSpace(appendInt(v, o.SessionVersion))
+	v = appendSpace(appendUint64(v, uint64(o.SessionID)))
+	v = appendSpace(appendUint64(v, uint64(o.SessionVersion)))
 	v = appendSpace(append(v, o.getNetworkType()...))
 	v = appendSpace(append(v, o.getAddressType()...))
 	v = append(v, o.Address...)
-- 
2.43.0


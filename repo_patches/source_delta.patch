From ec81aed7104a21ac829b4eb05a57b8e49b90e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 01/25] fix: ending a connection raced with sending and closing

The status was read and written by three goroutines without
synchronisation, and the send queue was closed and replaced while users
could still send on it (panic) or the sender could pick up the new queue
(goroutine leak). The status is atomic now, the queue is never closed, and
a done channel closed once wakes every sender.
---
 tcpnetwork/tcpnetwork.go | 50 ++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..0145d9d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"net"
+	"sync/atomic"
 	"time"
 )
 
@@ -40,8 +41,9 @@ const (
 type Connection struct {
 	conn                net.Conn
 	connRW              *bufio.ReadWriter
-	status              int
+	status              int32
 	sendMsgQueue        chan []byte
+	done                chan struct{} // closed once, by close()
 	sendBufferSize      int
 	sendTimeoutSec      int
 	readTimeoutSec      int
@@ -72,6 +74,7 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		connRW:              bufio.NewReadWriter(bufio.NewReaderSize(c, connConfMaxReadBufferLength), bufio.NewWriterSize(c, connConfMaxReadBufferLength)),
 		status:              ConnStatusNone,
 		sendMsgQueue:        make(chan []byte, sendBufferSize),
+		done:                make(chan struct{}),
 		sendBufferSize:      sendBufferSize,
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
 		maxReadBufferLength: connConfMaxReadBufferLength,
@@ -81,17 +84,17 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 
 // directly close, packages in queue will not be sent
 func (connection *Connection) close() {
-	if ConnStatusConnected != connection.status {
+	if !atomic.CompareAndSwapInt32(&connection.status, ConnStatusConnected, ConnStatusDisconnected) {
 		return
 	}
 
 	connection.conn.Close()
-	connection.status = ConnStatusDisconnected
+	close(connection.done)
 }
 
 // Close close tcp connection
 func (connection *Connection) Close() {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -100,6 +103,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// already closed
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -119,11 +126,7 @@ func (connection *Connection) pushEvent(eventType int, data []byte) {
 
 // GetStatus get connection status
 func (connection *Connection) GetStatus() int {
-	return connection.status
-}
-
-func (connection *Connection) setStatus(status int) {
-	connection.status = status
+	return int(atomic.LoadInt32(&connection.status))
 }
 
 // SetReadTimeoutSec set read time out
@@ -142,7 +145,7 @@ func (connection *Connection) SetStreamProtocol(streamProtocol IStreamProtocol)
 }
 
 func (connection *Connection) sendRaw(msg []byte) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -151,6 +154,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// already closed
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -162,7 +169,7 @@ func (connection *Connection) sendRaw(msg []byte) {
 
 // Send send data
 func (connection *Connection) Send(msg []byte, needCopy bool) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -178,6 +185,10 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	// a connection runs once, and messages sent from now on are not lost
+	if !atomic.CompareAndSwapInt32(&connection.status, ConnStatusNone, ConnStatusConnected) {
+		return
+	}
 	go connection.routineMain()
 }
 
@@ -193,10 +204,6 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
-
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
 	}()
@@ -209,7 +216,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
@@ -222,13 +228,13 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.done:
+			{
+				// connection closed, quit
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
-- 
2.43.0


From 924e4b4932ec4cd7017009432f2b8378095b2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 02/25] fix: a failed write or flush left the connection open

Flush errors were ignored, and after a write error the sending goroutine
returned without closing the connection, so that nothing, not even a local
Close, ended it any more.
---
 tcpnetwork/tcpnetwork.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 0145d9d..cb6380d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -224,6 +224,7 @@ func (connection *Connection) routineMain() {
 func (connection *Connection) routineSend() error {
 	defer func() {
 		log.Println("Connection send log return")
+		connection.close()
 	}()
 
 	for {
@@ -250,14 +251,22 @@ func (connection *Connection) routineSend() error {
 						log.Println("Conn write error:", err)
 						return err
 					}
-					connection.connRW.Flush()
+					err = connection.connRW.Flush()
+					if err != nil {
+						log.Println("Conn flush error:", err)
+						return err
+					}
 				}
 				_, err = connection.connRW.Write(sendMsg)
 				if err != nil {
 					log.Println("Conn write error:", err)
 					return err
 				}
-				connection.connRW.Flush()
+				err = connection.connRW.Flush()
+				if err != nil {
+					log.Println("Conn flush error:", err)
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 105aaa2f8963831e918703696559076c6f446fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 03/25] fix: frames near the buffer size, empty frames and bad
 content lengths broke the framing

An interleaved frame of 65532 bytes or more overran the read buffer, an
empty frame and an unknown header were both read as 'whatever is there',
losing the framing, the error of that read was ignored, and a negative or
huge Content-Length sliced out of range.
---
 rtpstreamprotocol.go       |  4 ++--
 tcpnetwork/tcpinterface.go |  3 ++-
 tcpnetwork/tcpnetwork.go   | 21 ++++++++++++++++-----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..8bbf16c 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -25,7 +25,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		var len uint16
 		err := binary.Read(reader, binary.BigEndian, &len)
 		if nil != err {
-			return 0, nil
+			return -1, nil
 		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
@@ -33,7 +33,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 	} else {
 		log.Print("header error")
 		log.Print(header)
-		return 0, nil
+		return -1, nil
 	}
 }
 
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..e2cc2cf 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,8 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// read the header length of the stream: the length of the body (zero or
+	// more, or negative if it is not known) or the mark that ends the body
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index cb6380d..7673d30 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -35,6 +35,7 @@ const (
 const (
 	connConfDefaultSendTimeoutSec = 5
 	connConfMaxReadBufferLength   = 0xffff
+	connConfMaxHeaderLength       = 16
 )
 
 // Connection TCP connection context
@@ -274,7 +275,7 @@ func (connection *Connection) routineSend() error {
 
 func (connection *Connection) routineRead() error {
 	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	buf := make([]byte, connection.maxReadBufferLength+connConfMaxHeaderLength)
 
 	for {
 		data, err := connection.unpack(buf)
@@ -306,6 +307,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 
 	bufStartPos := 0
 	headerLength := connection.streamProtocol.GetHeaderLength()
+	if headerLength < 0 || headerLength > len(buf) {
+		return nil, errors.New("The stream header is too long")
+	}
 	bodyLength := 0
 	contextLength := 0
 	headBuf := buf[bufStartPos:headerLength]
@@ -324,7 +328,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
 		}
 		for {
-			if bufStartPos+curBodyPos+1 > connection.maxReadBufferLength {
+			if bufStartPos+curBodyPos+1 > len(buf) {
 				return nil, errors.New("The stream data is too long")
 			}
 
@@ -341,8 +345,8 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
-		if packetLength > connection.maxReadBufferLength {
+	} else if 0 <= packetLength {
+		if bufStartPos+packetLength > len(buf) {
 			return nil, errors.New("The stream data is too long")
 		}
 
@@ -356,7 +360,11 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			return nil, err
 		}
 	} else {
-		allDataLen, _ := connection.connRW.Read(buf[bufStartPos:])
+		// no length known, take what is there
+		allDataLen, err := connection.connRW.Read(buf[bufStartPos:])
+		if err != nil {
+			return nil, err
+		}
 		bufStartPos += allDataLen
 		msg = make([]byte, bufStartPos)
 		copy(msg, buf[:bufStartPos])
@@ -366,6 +374,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	bufStartPos += bodyLength
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
+	if contextLength < 0 || contextLength > len(buf)-bufStartPos {
+		return nil, errors.New("The stream data is too long")
+	}
 	if 0 != contextLength {
 		// read context
 		if 0 != connection.readTimeoutSec {
-- 
2.43.0


From a40955ce3c9315f7ecb00f59336430db35d2c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 04/25] fix: the WebSocket connection recursed forever and lost
 data

Addresses and deadlines called themselves, a message larger than the
destination of a Read overran it, and Close neither closed the socket nor
was safe to call while another goroutine was writing.
---
 websocketconn.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..b1a877a 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -9,15 +9,20 @@ import (
 
 type WebsocketConn struct {
 	conn *websocket.Conn
+	rest []byte // received bytes that did not fit the last Read
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for len(conn.rest) == 0 {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.rest = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.rest)
+	conn.rest = conn.rest[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
@@ -29,25 +34,30 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	// the close message is a courtesy, the socket is closed either way
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	if err := conn.conn.SetReadDeadline(t); nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From 0c36acfce882022360a69661ee0b8eb8897087ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 05/25] fix: sessions shared queues and media channels without
 synchronisation

The event goroutine replaced the queues and read the channel table while
the caller used them, and sending a response to a queue nobody reads
stalled all reception. The queues and the channel table now belong to one
connection, the table is locked, and handing over a response never blocks.
---
 rtspclient.go  | 99 ++++++++++++++++++++++++++++++++++----------------
 rtsprequest.go |  5 +++
 2 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index d931a87..f50c0c1 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -76,52 +77,85 @@ type RtspClientSession struct {
 	eventHandle        func(*RtspEvent)
 	rtpProtocol        *RTPStreamProtocol
 	tcpConn            *tcpnetwork.Connection
-	eventQueue         chan *tcpnetwork.ConnEvent
-	rtspResponseQueue  chan *RtspResponseContext
-	rtpChannelMap      map[int]*RtpParser
+	connContext        *connContext
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
 }
 
+// connContext is what belongs to one connection of a session, it is shared
+// with the goroutine that handles the events of that connection
+type connContext struct {
+	eventQueue        chan *tcpnetwork.ConnEvent
+	rtspResponseQueue chan *RtspResponseContext
+	rtpChannelLock    sync.Mutex
+	rtpChannelMap     map[int]*RtpParser
+}
+
+func newConnContext() *connContext {
+	return &connContext{
+		eventQueue:        make(chan *tcpnetwork.ConnEvent),
+		rtspResponseQueue: make(chan *RtspResponseContext, 1),
+		rtpChannelMap:     make(map[int]*RtpParser),
+	}
+}
+
+func (context *connContext) setRtpParser(channelNum int, rtpParser *RtpParser) {
+	context.rtpChannelLock.Lock()
+	defer context.rtpChannelLock.Unlock()
+	context.rtpChannelMap[channelNum] = rtpParser
+}
+
+func (context *connContext) getRtpParser(channelNum int) (*RtpParser, bool) {
+	context.rtpChannelLock.Lock()
+	defer context.rtpChannelLock.Unlock()
+	rtpParser, ok := context.rtpChannelMap[channelNum]
+	return rtpParser, ok
+}
+
+// pushResponse never blocks: there is at most one request to answer, a
+// response that finds another one waiting is unexpected
+func (context *connContext) pushResponse(response *RtspResponseContext) {
+	select {
+	case context.rtspResponseQueue <- response:
+	default:
+		log.Print("unexpected rtsp response, drop it")
+	}
+}
+
 func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEvent)) *RtspClientSession {
 	return &RtspClientSession{
 		dataHandle:         rtpHandler,
 		eventHandle:        eventHandler,
-		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
+		connContext:        newConnContext(),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
 		rtspRequestInitial: true,
 		timeoutSec:         2,
-		rtpChannelMap:      make(map[int]*RtpParser),
 		RtpMediaMap:        make(map[int]MediaSubsession),
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
+func (context *connContext) pushConnEvent(event *tcpnetwork.ConnEvent) {
+	context.eventQueue <- event
 }
 
 func (session *RtspClientSession) HandleConn() {
+	session.handleConn(session.connContext)
+}
+
+func (session *RtspClientSession) handleConn(context *connContext) {
 	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
+		// nobody else sends responses, wake up who waits for one
+		close(context.rtspResponseQueue)
 	}()
 	for {
-		event, ok := <-session.eventQueue
+		event, ok := <-context.eventQueue
 		if !ok {
 			// channel closed, quit
 			return
 		}
 		if nil == event {
-			// channel closed, quit
-			event.Conn.Close()
-			return
+			continue
 		}
 		switch event.EventType {
 		case tcpnetwork.ConnEventConnected:
@@ -138,7 +172,7 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(context, event.Data)
 				}
 			}
 			break
@@ -154,16 +188,16 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(context *connContext, data []byte) {
 	headerData := data[:4]
 	if headerData[0] == '$' {
-		session.parsingRtp(data)
+		session.parsingRtp(context, data)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(context, data)
 	}
 }
 
-func (session *RtspClientSession) parsingRtp(data []byte) {
+func (session *RtspClientSession) parsingRtp(context *connContext, data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
 
@@ -177,7 +211,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
-	rtpParser, ok := session.rtpChannelMap[channelNum]
+	rtpParser, ok := context.getRtpParser(channelNum)
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -191,15 +225,15 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(context *connContext, data []byte) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
+		context.pushResponse(nil)
 		return
 	}
-	session.rtspResponseQueue <- rtspResponseContext
+	context.pushResponse(rtspResponseContext)
 }
 
 func (session *RtspClientSession) sendRequest() error {
@@ -266,7 +300,7 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
-		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.connContext.setRtpParser(rtpIndex, newRtpParser(media.CodecName))
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
@@ -318,10 +352,11 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
+	session.connContext = newConnContext()
+	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.connContext.pushConnEvent)
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.HandleConn()
+	go session.handleConn(session.connContext)
 
 	return session.sendRequest()
 }
@@ -382,7 +417,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 	}()
 
 	select {
-	case response, ok := <-session.rtspResponseQueue:
+	case response, ok := <-session.connContext.rtspResponseQueue:
 		{
 			if !ok {
 				return nil, errors.New("rtsp connection disconnect")
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..d6416e1 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -31,6 +31,11 @@ func NewRtspClientContext() *RtspClientContext {
 
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
+	select {
+	case <-session.connContext.rtspResponseQueue:
+		// came before the request, it cannot be the answer
+	default:
+	}
 	session.rtspRequestInitial = false
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
-- 
2.43.0


From f12f36f9268af7ce3173cb9f5c237662e80ebf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 06/25] fix: a response timeout recursed forever, requests
 before a connection panicked

The timeout closed the session, which waited for the answer to a TEARDOWN
that it was not even allowed to send. Requests and Close on a session that
has no connection dereferenced nil.
---
 rtspclient.go  | 15 +++++++++++----
 rtsprequest.go | 24 ++++++++++--------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index f50c0c1..e989847 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -362,9 +362,13 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
-		session.SendTeardown()
-		session.WaitRtspResponse()
+	if nil == session.tcpConn {
+		return
+	}
+	if session.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected {
+		if err := session.SendTeardown(); nil == err {
+			session.WaitRtspResponse()
+		}
 	}
 	session.tcpConn.Close()
 }
@@ -429,7 +433,10 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			// not session.Close(), it waits for a response again
+			if nil != session.tcpConn {
+				session.tcpConn.Close()
+			}
 			return nil, errors.New("recv response time out")
 		}
 	}
diff --git a/rtsprequest.go b/rtsprequest.go
index d6416e1..e793a3b 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -29,7 +29,10 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
-func (session *RtspClientSession) sendRequst(request []byte) {
+func (session *RtspClientSession) sendRequst(request []byte) error {
+	if nil == session.tcpConn {
+		return errors.New("session is not connected")
+	}
 	log.Println(string(request))
 	select {
 	case <-session.connContext.rtspResponseQueue:
@@ -39,6 +42,7 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 	session.rtspRequestInitial = false
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
+	return nil
 }
 
 func (session *RtspClientSession) SendDescribe() error {
@@ -57,8 +61,7 @@ func (session *RtspClientSession) SendDescribe() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("DESCRIBE", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
@@ -80,9 +83,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPause() error {
@@ -96,8 +97,7 @@ func (session *RtspClientSession) SendPause() error {
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
@@ -130,9 +130,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 		request += session.rtspContext.authenicator.createAuthenticatorString("PLAY", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTeardown() error {
@@ -148,7 +146,5 @@ func (session *RtspClientSession) SendTeardown() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
-- 
2.43.0


From 0961664f3ee63f98ac1feab4bf83ee33cc08750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 07/25] fix: the password was logged and returned in errors

Every request was logged with its Basic credentials, and the errors of a
URL that cannot be parsed repeated it with the password in it.
---
 rtspclient.go  | 8 ++++----
 rtsprequest.go | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index e989847..0f627aa 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -330,7 +330,7 @@ func (session *RtspClientSession) sendRequest() error {
 func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 	urlInfo, urlError := url.Parse(rtspURL)
 	if nil != urlError {
-		return errors.New("url parse error: " + rtspURL)
+		return errors.New("url parse error")
 	}
 
 	if "" != urlInfo.RawQuery {
@@ -376,13 +376,13 @@ func (session *RtspClientSession) Close() {
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
-		return errors.New("url parse error: " + rtspURL)
+		return errors.New("url parse error")
 	}
 
 	websocketConn, _, err := websocket.DefaultDialer.Dial(webURL, nil)
 	if nil != err {
 		session.sendEvent(RtspEventDisconnected, nil)
-		log.Println("connect error: ", webURL)
+		log.Println("connect error: ", err)
 		return err
 	}
 
@@ -400,7 +400,7 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
-		return errors.New("url parse error: " + rtspURL)
+		return errors.New("url parse error")
 	}
 
 	// create connection
diff --git a/rtsprequest.go b/rtsprequest.go
index e793a3b..a9b093a 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"strings"
 )
 
 const (
@@ -33,7 +34,8 @@ func (session *RtspClientSession) sendRequst(request []byte) error {
 	if nil == session.tcpConn {
 		return errors.New("session is not connected")
 	}
-	log.Println(string(request))
+	// only the request line, the headers hold the credentials
+	log.Println(strings.SplitN(string(request), "\r\n", 2)[0])
 	select {
 	case <-session.connContext.rtspResponseQueue:
 		// came before the request, it cannot be the answer
-- 
2.43.0


From 114375a4002b694a7b03fd643626feddfb8fea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 08/25] fix: session and authorization headers of requests

PAUSE was not authorized and TEARDOWN named no session, the first SETUP
sent an empty Session header, the identifier kept its parameters and was
lost when a later SETUP response did not repeat it, header values with a
colon were ignored, and a start time produced a broken Speed header.
---
 rtspclient.go  |  4 +++-
 rtspparser.go  |  5 +++--
 rtsprequest.go | 28 ++++++++++++++++++++--------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0f627aa..9dda462 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -311,7 +311,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..c0a48cc 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -51,7 +51,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
@@ -65,7 +65,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// the identifier only, without parameters
+			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
diff --git a/rtsprequest.go b/rtsprequest.go
index a9b093a..2c304c1 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -30,6 +30,14 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
+// sessionHeader is empty as long as the server named no session
+func (context *RtspClientContext) sessionHeader() string {
+	if "" == context.sessionID {
+		return ""
+	}
+	return "Session: " + context.sessionID + "\r\n"
+}
+
 func (session *RtspClientSession) sendRequst(request []byte) error {
 	if nil == session.tcpConn {
 		return errors.New("session is not connected")
@@ -73,10 +81,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n" +
 		"%s" +
-		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionID, inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionHeader(), inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -95,9 +103,12 @@ func (session *RtspClientSession) SendPause() error {
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionHeader(), session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	return session.sendRequst([]byte(request))
 }
@@ -114,16 +125,16 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"%s" +
 		"%s" +
 		"x-prebuffer: maxtime=3.0\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, strStartTime, strSpeed, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionHeader(), strStartTime, strSpeed, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -142,7 +153,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 0b5d7b133b754218b839c73a2d9f93ee5fb12ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 09/25] fix: failed playback attempts went on or were reported
 as success

A request that was refused was not noticed, and PlayUseWebsocket returned
nil whatever happened.
---
 rtspclient.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 9dda462..a41b149 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -253,7 +253,9 @@ func (session *RtspClientSession) sendRequest() error {
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
 
-	session.SendDescribe()
+	if errorInfo = session.SendDescribe(); nil != errorInfo {
+		return errorInfo
+	}
 
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
@@ -270,7 +272,9 @@ func (session *RtspClientSession) sendRequest() error {
 			session.rtspContext.authenicator.password = session.password
 		}
 
-		session.SendDescribe()
+		if errorInfo = session.SendDescribe(); nil != errorInfo {
+			return errorInfo
+		}
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
 			return errorInfo
@@ -302,7 +306,9 @@ func (session *RtspClientSession) sendRequest() error {
 		rtcpIndex := index*2 + 1
 		session.connContext.setRtpParser(rtpIndex, newRtpParser(media.CodecName))
 		session.RtpMediaMap[rtpIndex] = media
-		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		if errorInfo = session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex); nil != errorInfo {
+			return errorInfo
+		}
 
 		response, errorInfo = session.WaitRtspResponse()
 		if nil != errorInfo {
@@ -316,7 +322,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 	}
 
-	session.SendPlay(0, 1)
+	if errorInfo = session.SendPlay(0, 1); nil != errorInfo {
+		return errorInfo
+	}
 	response, errorInfo = session.WaitRtspResponse()
 	if nil != errorInfo {
 		return errorInfo
@@ -390,8 +398,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From 51d502ec780d18d92dc609eb3ff570b8967f7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 10/25] fix: a new playback attempt used the state of an
 earlier one

The user and password of an earlier URL were sent to the next server, the
session identifier, the outstanding-request mark and the media table were
carried over, and PlayUseWebsocket abandoned an open connection.
---
 rtspclient.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index a41b149..36a8e68 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -351,6 +351,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.address += ":554"
 	}
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
@@ -362,6 +364,10 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
+	// nothing of an earlier connection is left
+	session.rtspRequestInitial = true
+	session.rtspContext.sessionID = ""
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 	session.connContext = newConnContext()
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.connContext.pushConnEvent)
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
@@ -384,6 +390,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error")
-- 
2.43.0


From 55b61a1083f7b975e7a13a6844dcc8730ae5b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 11/25] fix: short packets and responses crashed the process

The event goroutine sliced packets, fragments and responses without
checking their length, the mark parser read a header that was not set yet,
and data was delivered to a handler that may be nil.
---
 h264rtpparser.go | 3 +++
 hevcrtpparser.go | 3 +++
 markrtpparser.go | 2 +-
 rtspclient.go    | 8 +++++++-
 rtspparser.go    | 5 ++++-
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..c8ddacc 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -36,6 +36,9 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	case 28, 29: // FU-A // FU-B
 		{
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
+			if len(rtpData) < 2 {
+				return false, src, nil
+			}
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..2b7f3fb 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -26,6 +26,9 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
 			// 3 (or 5) bytes, and skip over the first 1 (or 3) bytes.
+			if len(rtpData) < 3 {
+				return false, src, nil
+			}
 			startBit := rtpData[2] & 0x80
 			endBit := rtpData[2] & 0x40
 			if 0 != startBit {
diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
diff --git a/rtspclient.go b/rtspclient.go
index 36a8e68..e783540 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -189,6 +189,9 @@ func (session *RtspClientSession) handleConn(context *connContext) {
 }
 
 func (session *RtspClientSession) parsingData(context *connContext, data []byte) {
+	if len(data) < PacketHeaderLen {
+		return
+	}
 	headerData := data[:4]
 	if headerData[0] == '$' {
 		session.parsingRtp(context, data)
@@ -201,6 +204,9 @@ func (session *RtspClientSession) parsingRtp(context *connContext, data []byte)
 	header := data[:4]
 	rtpData := data[4:]
 
+	if len(rtpData) < RtpHeaderLen {
+		return
+	}
 	timestampBufBefore := rtpData[4:8]
 	reader := bytes.NewReader(timestampBufBefore)
 	var timestamp uint32
@@ -217,7 +223,7 @@ func (session *RtspClientSession) parsingRtp(context *connContext, data []byte)
 		header, payload := rtpParser.splitRtpPacket(rtpData)
 		for totalLength < len(payload) {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
-			if nil != nalu {
+			if nil != nalu && nil != session.dataHandle {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
diff --git a/rtspparser.go b/rtspparser.go
index c0a48cc..c5b49a4 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -28,6 +28,9 @@ const (
 )
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
+	if len(response) < len("RTSP/1.0 ")+3 {
+		return errors.New("rtsp packet too short")
+	}
 	// rtp packet no context
 	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
 		return errors.New("not rtsp packet")
@@ -61,7 +64,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
-			if len(response)-rtspEndPos >= context.contentLength {
+			if context.contentLength >= 0 && len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-- 
2.43.0


From 127c0d1cd7293883f1eb6f48eeef48eb2a7b682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 12/25] fix: aggregation packets were split at wrong sizes or
 not at all

The high byte of every unit size was shifted out of its byte, H.264
aggregation packets were not recognised (H.265 type field, header too
short), and a unit near the end of the packet took the bytes behind it.
---
 h264rtpparser.go | 20 ++++++++++++--------
 hevcrtpparser.go |  5 ++++-
 rtpparser.go     |  2 +-
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index c8ddacc..069fce2 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -59,40 +59,44 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		}
 	}
 
+	if skipHeaderLen > len(rtpData) {
+		skipHeaderLen = len(rtpData)
+	}
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := naluHeader[0] & 0x1f
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		return len(payload), len(payload)
+	}
+	// every unit starts with its 16 bit size
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluHeaderSize + naluSize
 }
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 2b7f3fb..e9b09aa 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -68,7 +68,10 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
+			if len(payload) < 2 {
+				return len(payload), len(payload)
+			}
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..51f4d34 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,7 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
-- 
2.43.0


From d34478842b7078bd0a9cd2465b109b5cfb36fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 13/25] fix: a description that cannot be decoded terminated
 the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 1b562e845aae275f39e4dd4652b86d5947d5a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 14/25] fix: a media format that is not a number was taken for
 PCMU

Several formats or a format name made Atoi fail, which left payload type 0.
---
 sdpparser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..1a33359 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,7 +59,7 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		sdpInfo.Medias[index].PayloadFormat = getPayloadFormat(meidaInfo.Description.Format)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
 			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
@@ -99,6 +99,20 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+// getPayloadFormat returns the first payload type of a media description, or
+// -1 if it is not a number
+func getPayloadFormat(sdpFormat string) int {
+	formats := strings.Fields(sdpFormat)
+	if 0 == len(formats) {
+		return -1
+	}
+	payloadFormat, err := strconv.Atoi(formats[0])
+	if nil != err {
+		return -1
+	}
+	return payloadFormat
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From 98ca59464c5d67f93fec0a0ca1a88c8b06160322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 15/25] fix: format parameters were not split at semicolons

---
 sdpparser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 1a33359..6c5c26d 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -124,14 +124,16 @@ func getFmtParame(sdpFmtp string) map[string]string {
 
 	fieldsFmtp := strings.Split(sdpFmtp, " ")
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
+		fields := strings.Split(field, ";")
 		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
+			if "" == fieldTemp {
+				continue
+			}
 			index := strings.Index(fieldTemp, "=")
 			if index == -1 {
 				fmtParame[fieldTemp] = ""
 			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
+				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]
 			}
 		}
 	}
-- 
2.43.0


From 0f091cbafaf741e4a86e0cfc964cb9e1b6287ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 16/25] fix: decoded repeat times were lost

They were stored into a copy of the timing entry.
---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..c8e0515 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -874,7 +874,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		err = newSectionDecodeError(d.section, msg)
 		return errors.Wrap(err, "failed to decode repeat")
 	}
-	t := m.Timing[len(m.Timing)-1]
+	t := &m.Timing[len(m.Timing)-1]
 	if err = decodeInterval(p[0], &t.Repeat); err != nil {
 		return errors.Wrap(err, "failed to decode repeat interval")
 	}
-- 
2.43.0


From 6eda73006ded95530ef89db2826cd6b1ad4d86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 17/25] fix: TTL of a media connection was stored in the
 session, IPv6 address counts were rejected

---
 sdp/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index c8e0515..6146a5d 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,16 +641,16 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From d2fb7cf8860cc16d3535e56b7e7ddabc089b8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 18/25] fix: numbers out of range were truncated, a blank
 duration panicked

TTL and address count above 255 or below 0 and durations that overflow were
stored with another value, and a blank sub-field of repeat times or time
zones indexed an empty slice.
---
 sdp/decoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 6146a5d..445a21c 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -514,7 +515,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
@@ -703,7 +704,8 @@ func (d *Decoder) decodeBandwidth(m *Message) error {
 }
 
 func parseNTP(v []byte) (uint64, error) {
-	return strconv.ParseUint(string(v), 10, 64)
+	// no more than what fits the int64 of time.Unix
+	return strconv.ParseUint(string(v), 10, 63)
 }
 
 func (d *Decoder) decodeTimingField(m *Message) error {
@@ -829,6 +831,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 		noUnitSpecified bool
 		val             int
 	)
+	if len(b) == 0 {
+		return errors.Wrap(io.ErrUnexpectedEOF, "blank duration")
+	}
 	switch b[len(b)-1] {
 	case 'd':
 		unit = time.Hour * 24
@@ -852,6 +857,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 	if err := decodeInt(b, &val); err != nil {
 		return errors.Wrap(err, "unable to decode value")
 	}
+	if limit := math.MaxInt64 / unit; time.Duration(val) > limit || time.Duration(val) < -limit {
+		return errors.New("duration is out of range")
+	}
 	*v = time.Duration(val) * unit
 	return nil
 }
-- 
2.43.0


From 7443142f757e3d2cbc08e6c14a5e13b482b349b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 19/25] fix: several time descriptions and time zones after
 them were rejected

This is the order the standard prescribes and the encoder writes.
---
 sdp/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 445a21c..cdbb5c2 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -232,6 +232,7 @@ var orderingSession = ordering{
 	TypeConnectionData,
 	TypeBandwidth,     // 0 or more
 	TypeTimeZones,     // *
+	TypeTimeZones,     // * also after time
 	TypeEncryptionKey, // ordering after time start
 	TypeAttribute,     // 0 or more
 }
@@ -383,6 +384,10 @@ func (d *Decoder) decodeTiming(m *Message) error {
 	d.sPos = 0
 	d.section = sectionTime
 	for d.next() {
+		if d.t == TypeTiming {
+			// one more time description
+			d.sPos = 0
+		}
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
-- 
2.43.0


From 77faef2897631801dd064313a0e0edb365d954cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 20/25] fix: attributes and bandwidths were encoded in random
 order

---
 sdp/encoder.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/sdp/encoder.go b/sdp/encoder.go
index 1a603b3..0be2f9f 100644
--- a/sdp/encoder.go
+++ b/sdp/encoder.go
@@ -1,8 +1,25 @@
 package sdp
 
+import "sort"
+
+// sortedBandwidths returns the types in b in a fixed order.
+func sortedBandwidths(b Bandwidths) []BandwidthType {
+	types := make([]BandwidthType, 0, len(b))
+	for t := range b {
+		types = append(types, t)
+	}
+	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
+	return types
+}
+
 func (s Session) appendAttributes(attrs Attributes) Session {
-	for k, v := range attrs {
-		for _, a := range v {
+	keys := make([]string, 0, len(attrs))
+	for k := range attrs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		for _, a := range attrs[k] {
 			if len(a) == 0 {
 				s = s.AddFlag(k)
 			} else {
@@ -34,8 +51,8 @@ func (m *Message) Append(s Session) Session {
 	if !m.Connection.Blank() {
 		s = s.AddConnectionData(m.Connection)
 	}
-	for t, v := range m.Bandwidths {
-		s = s.AddBandwidth(t, v)
+	for _, t := range sortedBandwidths(m.Bandwidths) {
+		s = s.AddBandwidth(t, m.Bandwidths[t])
 	}
 	// One or more time descriptions ("t=" and "r=" lines)
 	for _, t := range m.Timing {
@@ -60,8 +77,8 @@ func (m *Message) Append(s Session) Session {
 		if !mm.Connection.Blank() {
 			s = s.AddConnectionData(mm.Connection)
 		}
-		for t, v := range mm.Bandwidths {
-			s = s.AddBandwidth(t, v)
+		for _, t := range sortedBandwidths(mm.Bandwidths) {
+			s = s.AddBandwidth(t, mm.Bandwidths[t])
 		}
 		if !mm.Encryption.Blank() {
 			s = s.AddEncryption(mm.Encryption)
-- 
2.43.0


From 54be96f69a38597a9d432b16cf9d5f8b98540d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 21/25] fix: a line whose type has more than one character was
 accepted

---
 sdp/sdp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..96f0960 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -70,7 +70,11 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	r, _ := utf8.DecodeRune(b[:delimiter])
+	r, n := utf8.DecodeRune(b[:delimiter])
+	if n != delimiter {
+		// more than one character is no known type
+		r = utf8.RuneError
+	}
 	l.Type = Type(r)
 	l.Value = append(l.Value, b[delimiter+1:]...)
 	return nil
-- 
2.43.0


From 9975e6163a8000638eab1a118a435c8d3d0953b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 22/25] fix: an IPv4 address count without TTL was encoded as
 the TTL

---
 sdp/fields.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/fields.go b/sdp/fields.go
index a11472b..f38e54f 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -236,7 +236,7 @@ func (c ConnectionData) ConnectionAddress() string {
 	// <base multicast address>[/<ttl>]/<number of addresses>
 	// ALLOCATIONS: suboptimal. Use appendAddress.
 	var address = strings.ToUpper(c.IP.String())
-	if c.TTL > 0 {
+	if c.TTL > 0 || c.Addresses > 0 && isIPv4(c.IP) {
 		address += fmt.Sprintf("/%d", c.TTL)
 	}
 	if c.Addresses > 0 {
@@ -253,7 +253,7 @@ func (c ConnectionData) String() string {
 
 func (c ConnectionData) appendAddress(v []byte) []byte {
 	v = appendIP(v, c.IP)
-	if c.TTL > 0 {
+	if c.TTL > 0 || c.Addresses > 0 && isIPv4(c.IP) {
 		v = appendRune(v, '/')
 		v = appendByte(v, c.TTL)
 	}
-- 
2.43.0


From 60dcc69195736f36fcf11dd3aa61eecbdeff08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 23/25] fix: the last fragment of a unit may be empty

A fragmentation unit with the end bit and no payload completes the unit
(RFC 6184 5.8), but it was skipped and the unit stayed pending, to be glued
to the next one.
---
 h264rtpparser.go | 2 +-
 rtspclient.go    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 069fce2..92ca025 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -5,7 +5,7 @@ type H264RtpParser struct {
 
 func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+1 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
diff --git a/rtspclient.go b/rtspclient.go
index e783540..680c54b 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -221,7 +221,10 @@ func (session *RtspClientSession) parsingRtp(context *connContext, data []byte)
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
-		for totalLength < len(payload) {
+		// the last fragment of a unit may be empty
+		isEmptyEnd := 0 == len(payload) && rtpParser.isMarkFrame && rtpParser.payloadLen > 0
+		for isEmptyEnd || totalLength < len(payload) {
+			isEmptyEnd = false
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
 			if nil != nalu && nil != session.dataHandle {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
-- 
2.43.0


From f4f427e20e0c8b1c40f71d05c295dd3ecad8568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 24/25] fix: describe a stream by the rtpmap attribute of its
 own payload type

---
 sdpparser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index 6c5c26d..17e36c1 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -62,7 +62,7 @@ func parsingSDP(sdp string) *SDPInfo {
 		sdpInfo.Medias[index].PayloadFormat = getPayloadFormat(meidaInfo.Description.Format)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getRtpmap(meidaInfo.Attributes.Values("rtpmap"), sdpInfo.Medias[index].PayloadFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -113,6 +113,20 @@ func getPayloadFormat(sdpFormat string) int {
 	return payloadFormat
 }
 
+// getRtpmap returns the rtpmap attribute of the payload type, or the first one
+// if none is for it
+func getRtpmap(sdpRtpmaps []string, payloadFormat int) string {
+	for _, sdpRtpmap := range sdpRtpmaps {
+		if payloadFormat == getPayloadFormat(sdpRtpmap) {
+			return sdpRtpmap
+		}
+	}
+	if 0 == len(sdpRtpmaps) {
+		return ""
+	}
+	return sdpRtpmaps[0]
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From 82e69e38385e806b717284e02f7fe7544a08b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 25/25] fix: a peer that does not read no longer keeps a closed
 connection open

---
 tcpnetwork/tcpnetwork.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 7673d30..6339795 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -243,6 +243,9 @@ func (connection *Connection) routineSend() error {
 					return nil
 				}
 
+				// a peer that does not read must not keep the connection from ending
+				connection.conn.SetWriteDeadline(time.Now().Add(time.Duration(connection.sendTimeoutSec) * time.Second))
+
 				var err error
 				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)
 				if nil != headerBytes {
-- 
2.43.0


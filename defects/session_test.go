package rtspclient

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// A minimal RTSP server: used only to show that the defects recorded in
// known_findings.txt existed (base commit) and are repaired (HEAD). It is not
// part of any check.
type server struct {
	l      net.Listener
	reqs   chan string
	reply  func(n int, req string) string
	frames chan string
}

func serve(t *testing.T, reply func(n int, req string) string) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &server{l: l, reqs: make(chan string, 100), reply: reply}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				r := bufio.NewReader(c)
				n := 0
				for {
					req := ""
					for {
						line, err := r.ReadString('\n')
						if err != nil {
							return
						}
						req += line
						if line == "\r\n" {
							break
						}
					}
					s.reqs <- req
					out := reply(n, req)
					if out != "" {
						c.Write([]byte(out))
					}
					n++
				}
			}()
		}
	}()
	return s
}

const sdpText = "v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=x\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:trackID=0\r\nm=audio 0 RTP/AVP 8\r\na=control:trackID=1\r\n"

func okReply(n int, req string) string {
	switch strings.Fields(req)[0] {
	case "DESCRIBE":
		return fmt.Sprintf("RTSP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(sdpText), sdpText)
	case "SETUP":
		return "RTSP/1.0 200 OK\r\nSession: 1234;timeout=60\r\n\r\n"
	case "PLAY":
		return "RTSP/1.0 200 OK\r\n\r\n" + frame(0, 0) + frame(0, 20) + frame(2, 30) + frame(0, 65535)
	}
	return "RTSP/1.0 200 OK\r\n\r\n"
}

func frame(ch, n int) string {
	b := make([]byte, 4+n)
	b[0] = '$'
	b[1] = byte(ch)
	b[2] = byte(n >> 8)
	b[3] = byte(n)
	if n > 12 {
		b[16] = 1
	}
	return string(b)
}

func TestPlay(t *testing.T) {
	s := serve(t, okReply)
	var n, bytes int64
	ev := make(chan int, 100)
	c := NewRtspClientSession(func(d *RtspData) { atomic.AddInt64(&n, 1); atomic.AddInt64(&bytes, int64(len(d.Data))) }, func(e *RtspEvent) { ev <- e.EventType })
	for k := 0; k < 3; k++ {
		if err := c.Play("rtsp://u:p@" + s.l.Addr().String() + "/x?a=b"); err != nil {
			t.Fatal(err)
		}
		time.Sleep(200 * time.Millisecond)
		if got := atomic.LoadInt64(&bytes); got != int64(k+1)*(8+18+65523) {
			t.Fatal("bytes", got)
		}
		if err := c.SendPause(); err != nil {
			t.Fatal(err)
		}
		if r, err := c.WaitRtspResponse(); err != nil || r.Status != 200 {
			t.Fatal(err)
		}
		c.Close()
		time.Sleep(200 * time.Millisecond)
	}
	close(s.reqs)
	for r := range s.reqs {
		t.Log(strings.Replace(r, "\r\n", "|", -1))
	}
}

func TestTimeoutReturns(t *testing.T) {
	s := serve(t, func(int, string) string { return "" })
	c := NewRtspClientSession(nil, nil)
	done := make(chan error, 1)
	go func() { done <- c.Play("rtsp://" + s.l.Addr().String() + "/x") }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("nil")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("hangs")
	}
}

func TestUnsolicited(t *testing.T) {
	s := serve(t, func(n int, req string) string {
		r := okReply(n, req)
		if strings.HasPrefix(req, "PLAY") {
			r = strings.Repeat("RTSP/1.0 200 OK\r\n\r\n", 5) + frame(0, 20) + "RTSP\r\n\r\n" + frame(0, 3) + frame(0, 30)
		}
		return r
	})
	got := make(chan int, 10)
	c := NewRtspClientSession(func(d *RtspData) { got <- len(d.Data) }, nil)
	if err := c.Play("rtsp://" + s.l.Addr().String() + "/x"); err != nil {
		t.Fatal(err)
	}
	for _, w := range []int{8, 18} {
		select {
		case n := <-got:
			if n != w {
				t.Fatal(n)
			}
		case <-time.After(2 * time.Second):
			t.Fatal("stalled")
		}
	}
	if err := c.SendPlay(5, 2); err != nil {
		t.Fatal(err)
	}
	c.WaitRtspResponse()
	c.Close()
	for len(s.reqs) > 0 {
		t.Log(strings.Replace(<-s.reqs, "\r\n", "|", -1))
	}
}

func TestBeforePlay(t *testing.T) {
	c := NewRtspClientSession(nil, nil)
	c.SendPause()
	c.Close()
}

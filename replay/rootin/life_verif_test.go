package rtspclient

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

type notebook struct {
	mu     sync.Mutex
	events []int
	data   []string
}

func (b *notebook) event(e *RtspEvent) {
	b.mu.Lock()
	b.events = append(b.events, e.EventType)
	b.mu.Unlock()
}
func (b *notebook) datum(d *RtspData) {
	b.mu.Lock()
	b.data = append(b.data, string(d.Data))
	b.mu.Unlock()
}
func (b *notebook) told() string { b.mu.Lock(); defer b.mu.Unlock(); return fmt.Sprint(b.events) }
func (b *notebook) seen() string { b.mu.Lock(); defer b.mu.Unlock(); return fmt.Sprintf("%q", b.data) }

func frame(payload string) []byte {
	rtp := append([]byte{0x80, 0x80 | 8, 0, 1, 0, 0, 0, 1, 0, 0, 0, 2}, payload...)
	return append([]byte{'$', 0, byte(len(rtp) >> 8), byte(len(rtp))}, rtp...)
}

// serve answers the requests of one connection, n of them with 200, then with another status; -1 stands for no limit.
func serve(c net.Conn, n int, tail []byte) {
	rd := bufio.NewReader(c)
	for {
		first, err := rd.ReadString('\n')
		if err != nil {
			return
		}
		cseq := ""
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				return
			}
			if strings.HasPrefix(strings.ToLower(l), "cseq:") {
				cseq = strings.TrimSpace(l[5:])
			}
			if l == "\r\n" {
				break
			}
		}
		status := "200 OK"
		if n == 0 {
			status = "404 Not Found"
		} else {
			n--
		}
		body, ct := "", ""
		if strings.HasPrefix(first, "DESCRIBE ") && status == "200 OK" {
			body = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\nm=audio 0 RTP/AVP 8\r\na=rtpmap:8 PCMA/8000\r\na=control:trackID=1\r\n"
			ct = fmt.Sprintf("Content-Type: application/sdp\r\nContent-Length: %d\r\n", len(body))
		}
		io.WriteString(c, "RTSP/1.0 "+status+"\r\nCSeq: "+cseq+"\r\nSession: 1\r\n"+ct+"\r\n"+body)
		if strings.HasPrefix(first, "PLAY ") && len(tail) > 0 {
			c.Write(tail)
		}
	}
}

func closedPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func TestVerifC23(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		b := &notebook{}
		var f func(*RtspEvent)
		if r.Intn(8) > 0 {
			f = b.event
		}
		want := func(v ...int) string {
			if f == nil || len(v) == 0 {
				return "[]"
			}
			return fmt.Sprint(v)
		}
		settled := func(w string) bool {
			ok := eventually(5*time.Second, func() bool { return b.told() == w })
			time.Sleep(2 * time.Millisecond)
			return ok && b.told() == w
		}
		s := NewRtspClientSession(b.datum, f)
		badURL := []string{"rtsp://[::1", "rtsp://h/%zz", ":", "rtsp://h:port/"}[r.Intn(4)]
		switch k := r.Intn(8); k {
		case 0, 1, 2:
			// a session on a connection of its own, events posted to it
			near, far := net.Pipe()
			defer far.Close()
			defer near.Close()
			s.tcpConn = tcpnetwork.NewConnection(near, 10, func(*tcpnetwork.ConnEvent) {})
			s.tcpConn.SetStreamProtocol(&RTPStreamProtocol{})
			s.rtpChannelMap[0] = newRtpParser("PCMA")
			replies := s.rtspResponseQueue
			done := make(chan bool)
			go func() { s.HandleConn(); close(done) }()
			trace, told, seen := "", want(), []string(nil)
			for end := false; !end; {
				var e *tcpnetwork.ConnEvent
				switch x := r.Intn(12); {
				case x < 6:
					p := strings.Repeat("x", r.Intn(5)+1) + fmt.Sprint(len(seen))
					seen = append(seen, p)
					e = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventData, Data: frame(p)}
					trace += " data " + p
				case x == 6:
					e = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventData}
					trace += " data without data"
				case x == 7:
					e = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventConnected}
					trace += " connected"
				case x == 8:
					e = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventNone + 77}
					trace += " unknown"
				case x == 9:
					e, end = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventDisconnected}, true
					told = want(RtspEventDisconnected)
					trace += " disconnected"
				case x == 10:
					e, end = &tcpnetwork.ConnEvent{EventType: tcpnetwork.ConnEventClose}, true
					trace += " closed"
				default:
					end = true
					trace += " nil"
				}
				current("events%s", trace)
				q := s.eventQueue
				ok := false
				if e == nil {
					select {
					case q <- nil:
						ok = true
					case <-time.After(5 * time.Second):
					}
				} else {
					c := make(chan bool)
					go func() { defer func() { recover() }(); s.pushConnEvent(e); close(c) }()
					select {
					case <-c:
						ok = true
					case <-time.After(5 * time.Second):
					}
				}
				if !ok {
					return fmt.Sprintf("after the events%s the session no longer takes events", trace)
				}
			}
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				return fmt.Sprintf("after the events%s the session has not ended", trace)
			}
			if !settled(told) {
				return fmt.Sprintf("after the events%s the user was told %s, expected %s", trace, b.told(), told)
			}
			if w := fmt.Sprintf("%q", seen); len(seen) > 0 && b.seen() != w {
				return fmt.Sprintf("after the events%s the data handler was given %s, expected %s", trace, b.seen(), w)
			}
			select {
			case _, ok := <-replies:
				if ok {
					return "a reply out of nothing"
				}
			case <-time.After(5 * time.Second):
				return fmt.Sprintf("after the events%s whoever waits for a reply is not released", trace)
			}
			if s.rtspResponseQueue == nil || s.eventQueue == nil {
				return fmt.Sprintf("after the events%s the session has no queues", trace)
			}
		case 3:
			current("Play(%q)", badURL)
			if err := s.Play(badURL); err == nil || b.told() != "[]" || s.tcpConn != nil {
				return fmt.Sprintf("Play(%q): error %v, told %s, connection %v", badURL, err, b.told(), s.tcpConn != nil)
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return ""
			}
			defer l.Close()
			came := make(chan bool, 1)
			go func() {
				c, err := l.Accept()
				if err == nil {
					came <- true
					c.Close()
				}
			}()
			err = s.PlayUseWebsocket("ws://"+l.Addr().String()+"/", badURL)
			time.Sleep(2 * time.Millisecond)
			if err == nil || b.told() != "[]" || s.tcpConn != nil || len(came) > 0 {
				return fmt.Sprintf("PlayUseWebsocket(_, %q): error %v, told %s, connection %v, %d dials", badURL, err, b.told(), s.tcpConn != nil, len(came))
			}
		case 4:
			u := "rtsp://" + closedPort() + "/x"
			current("nothing listens at %s", u)
			var err error
			if r.Intn(2) == 0 {
				err = s.Play(u)
			} else {
				err = s.PlayUseWebsocket("ws"+u[4:], "rtsp://h/x")
			}
			if err == nil || b.told() != want(RtspEventDisconnected) || s.tcpConn != nil {
				return fmt.Sprintf("nothing listens: error %v, told %s, connection %v", err, b.told(), s.tcpConn != nil)
			}
		case 5:
			w := newWire()
			defer w.far.Close()
			defer w.c.Close()
			if !eventually(5*time.Second, func() bool { return w.c.GetStatus() == tcpnetwork.ConnStatusConnected }) {
				return ""
			}
			s.tcpConn, s.address, s.rtspContext.rtspURL = w.c, "before", "rtsp://before/"
			u := "rtsp://" + closedPort() + "/x"
			current("Play(%q) on a connected session", u)
			if err := s.Play(u); err == nil || b.told() != "[]" || s.tcpConn != w.c || s.address != "before" || s.rtspContext.rtspURL != "rtsp://before/" {
				return fmt.Sprintf("Play(%q) on a connected session: error %v, told %s, same connection %v, address %q, URL %q", u, err, b.told(), s.tcpConn == w.c, s.address, s.rtspContext.rtspURL)
			}
		default:
			// a server on the loopback interface
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return ""
			}
			defer l.Close()
			good := r.Intn(5) - 1
			if good == 3 {
				good = -1
			}
			var tail []byte
			var seen []string
			for i := r.Intn(6); i > 0; i-- {
				seen = append(seen, strings.Repeat("y", i))
				tail = append(tail, frame(seen[len(seen)-1])...)
			}
			s.timeoutSec = 10
			conn := make(chan net.Conn, 1)
			go func() {
				c, err := l.Accept()
				if err != nil {
					return
				}
				conn <- c
				serve(c, good, tail)
			}()
			u := "rtsp://" + l.Addr().String() + "/x"
			current("Play(%q), %d requests are granted", u, good)
			err = s.Play(u)
			if good >= 0 {
				if err == nil || !strings.HasPrefix(b.told(), "[2") && f != nil {
					return fmt.Sprintf("a server that granted %d requests: error %v, told %s", good, err, b.told())
				}
				(<-conn).Close()
				return ""
			}
			if err != nil || !settled(want(RtspEventRequestSuccess)) {
				return fmt.Sprintf("a server that granted everything: error %v, told %s", err, b.told())
			}
			if w := fmt.Sprintf("%q", seen); len(seen) > 0 && !eventually(5*time.Second, func() bool { return b.seen() == w }) {
				return fmt.Sprintf("frames %s, the data handler was given %s", w, b.seen())
			}
			(<-conn).Close()
			if !settled(want(RtspEventRequestSuccess, RtspEventDisconnected)) {
				return fmt.Sprintf("after the server closed the connection the user was told %s", b.told())
			}
		}
		return ""
	})
}

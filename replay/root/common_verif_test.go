package rtspclient_test

// Replay harness: drives the real code through its exported interface with generated inputs and compares with an
// independent oracle. It runs only when a proof obligation failed, to look for an input that shows the violation.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	rtspclient "github.com/NodeBoy2/rtspclient"
)

type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if bytes.Contains(p, []byte("Panic: ")) && l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *logBuf) panics() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var logged = &logBuf{}

func init() { log.SetOutput(logged) }

func budget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 20
	}
	return time.Duration(n) * time.Second
}

// current is written before a case runs, so that a crash still leaves the input behind.
func current(format string, a ...interface{}) {
	if f := os.Getenv("VERIF_CASE"); f != "" {
		s := fmt.Sprintf(format, a...)
		if len(s) > 20000 {
			s = s[:20000] + "..."
		}
		os.WriteFile(f, []byte(s+"\n"), 0644)
	}
}

// search runs one case after the other until the time is over or one fails.
func search(t *testing.T, f func(r *rand.Rand, n int) string) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	end := time.Now().Add(budget())
	maxN := 1 << 30
	if s, err := strconv.Atoi(os.Getenv("VERIF_MAXCASES")); err == nil {
		maxN = s
	}
	n := 0
	for ; n < maxN && time.Now().Before(end); n++ {
		sd := seed*1000003 + int64(n)
		if m := f(rand.New(rand.NewSource(sd)), n); m != "" {
			// the same case again: a failure has to repeat
			if m2 := f(rand.New(rand.NewSource(sd)), n); m2 != "" {
				if len(m2) > 6000 {
					m2 = m2[:6000] + "..."
				}
				fmt.Printf("FAILING-INPUT case %d seed %d: %s\n", n, sd, m2)
				t.Fatal("violated")
			}
		}
		if p := logged.panics(); p != "" {
			fmt.Printf("FAILING-INPUT case %d seed %d: recovered panic in the receive path: %s\n", n, sd, p)
			t.Fatal("violated")
		}
	}
	fmt.Printf("CASES %d\n", n)
}

// ---------------------------------------------------------------- a scripted server

type request struct {
	raw     string
	method  string
	url     string
	headers map[string]string
	order   []string
	bad     string
}

func parseRequest(raw string) *request {
	q := &request{raw: raw, headers: map[string]string{}}
	if !strings.HasSuffix(raw, "\r\n\r\n") {
		q.bad = "not ended by a blank line"
		return q
	}
	lines := strings.Split(strings.TrimSuffix(raw, "\r\n\r\n"), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 || f[2] != "RTSP/1.0" {
		q.bad = "malformed request line"
		return q
	}
	q.method, q.url = f[0], f[1]
	for _, l := range lines[1:] {
		i := strings.Index(l, ":")
		if i < 0 {
			q.bad = "malformed header " + l
			return q
		}
		k := strings.ToLower(strings.TrimSpace(l[:i]))
		if _, ok := q.headers[k]; ok {
			q.bad = "header " + k + " twice"
		}
		q.headers[k] = strings.TrimSpace(l[i+1:])
		q.order = append(q.order, k)
	}
	return q
}

type server struct {
	conn  net.Conn
	rd    *bufio.Reader
	mu    sync.Mutex
	reqs  []*request
	extra string // bytes that are not part of a request
	done  chan bool
}

// serve answers requests with reply until it returns false.
func (s *server) serve(reply func(q *request, n int) ([]byte, bool)) {
	defer close(s.done)
	for {
		var b strings.Builder
		for {
			l, err := s.rd.ReadString('\n')
			b.WriteString(l)
			if err != nil {
				s.mu.Lock()
				s.extra = b.String()
				s.mu.Unlock()
				return
			}
			if strings.HasSuffix(b.String(), "\r\n\r\n") {
				break
			}
		}
		q := parseRequest(b.String())
		s.mu.Lock()
		s.reqs = append(s.reqs, q)
		n := len(s.reqs)
		s.mu.Unlock()
		r, more := reply(q, n-1)
		if r != nil {
			s.conn.Write(r)
		}
		if !more {
			return
		}
	}
}

func (s *server) requests() []*request {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*request{}, s.reqs...)
}

func newServer() (*server, net.Conn) {
	a, b := net.Pipe()
	s := &server{conn: b, rd: bufio.NewReader(b), done: make(chan bool)}
	return s, a
}

type media struct {
	kind, codec, control string
	clock                int
}

func sdpOf(ms []media) string {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\n"
	for i, m := range ms {
		rtpmap := ""
		if m.codec != "" {
			rtpmap = fmt.Sprintf("a=rtpmap:%d %s/%d\r\n", 96+i, m.codec, m.clock)
		}
		s += fmt.Sprintf("m=%s 0 RTP/AVP %d\r\n%sa=control:%s\r\n", m.kind, 96+i, rtpmap, m.control)
	}
	return s
}

func reply(status int, headers string, body string) []byte {
	h := ""
	if body != "" {
		h = fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	return []byte(fmt.Sprintf("RTSP/1.0 %d X\r\nCSeq: 1\r\n%s%s\r\n%s", status, headers, h, body))
}

type delivery struct {
	ch   int
	s    *rtspclient.RtspClientSession
	data []byte // copy made on delivery
	ref  []byte // what was delivered
}

type client struct {
	s      *rtspclient.RtspClientSession
	srv    *server
	mu     sync.Mutex
	got    []delivery
	events []int
	err    error
	cond   *sync.Cond
}

func newClient() *client {
	c := &client{}
	c.cond = sync.NewCond(&c.mu)
	c.s = rtspclient.NewRtspClientSession(func(d *rtspclient.RtspData) {
		c.mu.Lock()
		c.got = append(c.got, delivery{d.ChannelNum, d.Session, append([]byte{}, d.Data...), d.Data})
		c.cond.Broadcast()
		c.mu.Unlock()
	}, func(e *rtspclient.RtspEvent) {
		c.mu.Lock()
		c.events = append(c.events, e.EventType)
		c.cond.Broadcast()
		c.mu.Unlock()
	})
	return c
}

// waitFor waits until f holds (f runs under the lock).
func (c *client) waitFor(f func() bool) bool {
	end := time.Now().Add(20 * time.Second)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !f() {
		if time.Now().After(end) {
			return false
		}
		go func() {
			time.Sleep(50 * time.Millisecond)
			c.cond.Broadcast()
		}()
		c.cond.Wait()
	}
	return true
}

// connect runs the handshake for the given medias.
func connect(ms []media) (*client, error) {
	c := newClient()
	srv, conn := newServer()
	c.srv = srv
	if err := c.s.ParsingURL("rtsp://127.0.0.1/x"); err != nil {
		return nil, err
	}
	go srv.serve(func(q *request, n int) ([]byte, bool) {
		if q.method == "DESCRIBE" {
			return reply(200, "", sdpOf(ms)), true
		}
		return reply(200, "Session: 1\r\n", ""), q.method != "PLAY"
	})
	err := c.s.SetConnection(conn)
	if err == nil {
		<-srv.done
	}
	c.err = err
	return c, err
}

func (c *client) stop() {
	if c.srv != nil {
		go io.Copy(io.Discard, c.srv.rd)
		c.srv.conn.Close()
	}
}

func frame(ch int, p []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
}

// writeSplit sends b in pieces.
func writeSplit(r *rand.Rand, w io.Writer, b []byte) {
	for len(b) > 0 {
		n := len(b)
		switch r.Intn(4) {
		case 0:
			n = 1 + r.Intn(3)
		case 1:
			n = 1 + r.Intn(40)
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(6) {
		case 0:
			b[i] = []byte{0, 1, 255, 128, '$', 'R', '\r', '\n'}[r.Intn(8)]
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

package rtspclient_test

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"net"
	neturl "net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	rtspclient "github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

// ---------------------------------------------------------------- oracle: RTSP replies

type replyT struct {
	ok      bool
	status  int
	clen    int
	session string
	sessSet bool
	body    string
	end     int
	scheme  map[string][2]string // scheme -> realm, nonce
}

func headerKey(s string) string {
	return strings.ToUpper(strings.ReplaceAll(s, " ", ""))
}

func oracleReply(b []byte) replyT {
	r := replyT{scheme: map[string][2]string{}}
	if len(b) < 4 || string(b[:4]) != "RTSP" && string(b[:4]) != "rtsp" {
		return r
	}
	e := bytes.Index(b, []byte("\r\n\r\n"))
	if e < 0 || e+4 < 12 {
		return r
	}
	r.ok, r.end = true, e+4
	r.status, _ = strconv.Atoi(string(b[9:12]))
	for _, l := range strings.Split(string(b[:e]), "\r\n") {
		i := strings.IndexByte(l, ':')
		if i < 0 {
			continue
		}
		v := l[i+1:]
		switch headerKey(l[:i]) {
		case "CONTENT-LENGTH":
			n, _ := strconv.Atoi(strings.ReplaceAll(v, " ", ""))
			if n < 0 {
				n = 0
			}
			r.clen = n
		case "SESSION":
			if k := strings.IndexByte(v, ';'); k >= 0 {
				v = v[:k]
			}
			r.session, r.sessSet = strings.TrimSpace(v), true
		}
	}
	if len(b)-r.end >= r.clen {
		r.body = string(b[r.end : r.end+r.clen])
	}
	return r
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(3) == 0 {
			b[i] = bytes.ToUpper(b[i : i+1])[0]
		} else if r.Intn(3) == 0 {
			b[i] = bytes.ToLower(b[i : i+1])[0]
		}
	}
	return string(b)
}

func blanks(r *rand.Rand, n int) string { return strings.Repeat(" ", r.Intn(n)) }

// genReply writes a reply; body bytes follow as announced when complete.
func genReply(r *rand.Rand, maxBody int) []byte {
	var b bytes.Buffer
	if r.Intn(12) == 0 {
		// next to nothing before the blank line
		x := "RTSP"
		for i := r.Intn(8); i > 0; i-- {
			x += string("\r\n\r\n/: "[r.Intn(7)])
		}
		x += "\r\n\r\n"
		return []byte(x[:strings.Index(x, "\r\n\r\n")+4])
	}
	if r.Intn(4) == 0 {
		b.WriteString("rtsp")
	} else {
		b.WriteString("RTSP")
	}
	fmt.Fprintf(&b, "/1.0 %03d %s\r\n", r.Intn(1000), []string{"OK", "Unauthorized", "", "a:b", "Content-length: 9"}[r.Intn(5)])
	n := r.Intn(7)
	clen := 0
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0, 1, 2:
			k := randCase(r, "Content-length")
			if r.Intn(5) == 0 {
				k = blanks(r, 3) + k + blanks(r, 3)
			}
			switch r.Intn(9) {
			case 0:
				clen = 0
				fmt.Fprintf(&b, "%s: -%d\r\n", k, r.Intn(300))
			case 1:
				clen = 0
				fmt.Fprintf(&b, "%s:%sx%d\r\n", k, blanks(r, 3), r.Intn(100))
			default:
				clen = 0
				switch r.Intn(5) {
				case 0:
				case 1:
					clen = r.Intn(maxBody + 1)
				default:
					clen = r.Intn(40)
				}
				fmt.Fprintf(&b, "%s:%s%d%s\r\n", k, blanks(r, 3), clen, blanks(r, 3))
			}
		case 3:
			fmt.Fprintf(&b, "%s:%sab%d%s%s\r\n", randCase(r, "Session"), blanks(r, 3), r.Intn(1000), blanks(r, 3), []string{"", ";timeout=60", " ; x=y;z", ";"}[r.Intn(4)])
		case 4:
			fmt.Fprintf(&b, "CSeq: %d\r\n", r.Intn(99))
		case 5:
			b.WriteString("X-Content-Length: 77\r\n")
		case 6:
			b.WriteString("no colon here\r\n")
		case 7:
			b.WriteString("X: " + strings.Repeat("y", r.Intn(200)) + "Content-length:5\r\n")
		}
	}
	b.WriteString("\r\n")
	body := make([]byte, clen)
	for i := range body {
		body[i] = "$RTSPrtsp\r\n\r\nContent-length: 4abc:"[r.Intn(33)]
	}
	if clen > 0 && r.Intn(4) == 0 {
		copy(body, "\r\n\r\nContent-length: 99\r\nSession: zz\r\n\r\n")
	}
	b.Write(body)
	return b.Bytes()
}

// ---------------------------------------------------------------- C01

func genFrame(r *rand.Rand) []byte {
	n := r.Intn(60)
	switch r.Intn(20) {
	case 0:
		n = 65535 - r.Intn(20)
	case 1:
		n = r.Intn(65536)
	case 2:
		n = 0
	case 3:
		n = 250 + r.Intn(20)
	}
	return frame(r.Intn(256), randBytes(r, n))
}

func TestVerifC01(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		var want [][]byte
		var stream []byte
		k := 1 + r.Intn(6)
		for i := 0; i < k; i++ {
			var f []byte
			if r.Intn(2) == 0 {
				f = genFrame(r)
			} else {
				f = genReply(r, []int{40, 3000, 66000}[r.Intn(3)])
				if r.Intn(12) == 0 {
					// fill up to the size of the buffer
					pad := 65539 - len(f) + r.Intn(7) - 5
					if pad > 5 {
						x := bytes.Index(f, []byte("\r\n"))
						f = append(append(append([]byte{}, f[:x]...), []byte("\r\nX: "+strings.Repeat("p", pad-5))...), f[x:]...)
					}
				}
			}
			stream = append(stream, f...)
			if f[0] != '$' && len(f) > 65539 {
				break // has to be refused
			}
			want = append(want, f)
		}
		refused := len(want) < k && len(stream) > 65539
		// an unfinished frame at the end is not handed on
		tail := ""
		if !refused && r.Intn(3) == 0 {
			f := genFrame(r)
			if len(f) > 4 {
				tail = string(f[:len(f)-1])
			}
		}
		current("stream %q", stream)
		a, b := net.Pipe()
		got := make(chan []byte, 1000)
		over := make(chan bool, 10)
		c := tcpnetwork.NewConnection(a, 100, func(e *tcpnetwork.ConnEvent) {
			switch e.EventType {
			case tcpnetwork.ConnEventData:
				got <- e.Data
			case tcpnetwork.ConnEventDisconnected:
				over <- true
			}
		})
		c.SetStreamProtocol(&rtspclient.RTPStreamProtocol{})
		if r.Intn(3) == 0 {
			c.SetReadTimeoutSec(20)
		}
		c.Run()
		go func() {
			writeSplit(r, b, append(append([]byte{}, stream...), tail...))
			b.Close()
		}()
		select {
		case <-over:
		case <-time.After(20 * time.Second):
			return fmt.Sprintf("reading did not end; stream of %d bytes %.300q", len(stream), stream)
		}
		b.Close()
		close(got)
		var gs [][]byte
		for g := range got {
			gs = append(gs, g)
		}
		for i := range want {
			if i >= len(gs) {
				return fmt.Sprintf("message %d of %d not handed on (length %d): %.300q", i, len(want), len(want[i]), want[i])
			}
			if !bytes.Equal(gs[i], want[i]) {
				return fmt.Sprintf("message %d is %d bytes %.300q, sent %d bytes %.300q", i, len(gs[i]), gs[i], len(want[i]), want[i])
			}
		}
		if len(gs) > len(want) {
			return fmt.Sprintf("more messages than sent: %.300q (stream of %d bytes, %d messages, refused %v)", gs[len(want)], len(stream), len(want), refused)
		}
		return ""
	})
}

// ---------------------------------------------------------------- C07

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.Intn(6) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		if len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 2:
		i := r.Intn(len(b) + 1)
		b = append(b[:i:i], append([]byte(" "), b[i:]...)...)
	case 3:
		b = append(b, randBytes(r, r.Intn(20))...)
	}
	return b
}

func TestVerifC07(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		if n%40 == 39 {
			return sessionCase(r)
		}
		b := mutate(r, genReply(r, 400))
		current("reply %q", b)
		o := oracleReply(b)
		ctx := &rtspclient.RtspResponseContext{}
		in := append([]byte{}, b...)
		err := rtspclient.ParserRtspResponse(in, ctx)
		if (err == nil) != o.ok {
			return fmt.Sprintf("reply %q: error %v, expected acceptance %v", b, err, o.ok)
		}
		if !bytes.Equal(in, b) {
			return fmt.Sprintf("reply %q changed to %q", b, in)
		}
		if !o.ok {
			return ""
		}
		if ctx.Status != o.status {
			return fmt.Sprintf("reply %q: status %d, expected %d", b, ctx.Status, o.status)
		}
		if l := (&rtspclient.RTPStreamProtocol{}).GetContentLength(in); l != o.clen {
			return fmt.Sprintf("reply %q: content length %d, expected %d", b, l, o.clen)
		}
		return ""
	})
}

// sessionCase shows the session identifier and the body through the handshake.
func sessionCase(r *rand.Rand) string {
	body := sdpOf([]media{{"video", "H264", "trackID=1", 90000}, {"audio", "PCMA", "trackID=2", 8000}}[:1+r.Intn(2)])
	id := []string{"12", "abc def", "a-b.c", "x"}[r.Intn(4)]
	sess := randCase(r, "Session") + ":" + blanks(r, 4) + id + blanks(r, 3) + []string{"", ";timeout=9", "; a=b;c", ";;"}[r.Intn(4)] + "\r\n"
	if r.Intn(4) == 0 {
		sess = "Session: other\r\n" + sess
	}
	if r.Intn(3) == 0 {
		sess += "X-Session: no\r\nSessions: no\r\n"
	}
	nm := strings.Count(body, "m=")
	clen := randCase(r, "Content-length") + blanks(r, 2) + ":" + blanks(r, 3) + strconv.Itoa(len(body)) + "\r\n"
	if r.Intn(3) == 0 {
		clen = "Content-Length: 7\r\n" + clen
	}
	desc := "RTSP/1.0 200 OK\r\nX: content-length: 3\r\n" + clen + "\r\n" + body
	setup := "RTSP/1.0 200 OK\r\n" + sess + "\r\n"
	current("describe %q setup %q", desc, setup)
	c := newClient()
	srv, conn := newServer()
	c.srv = srv
	defer c.stop()
	if err := c.s.ParsingURL("rtsp://127.0.0.1/x"); err != nil {
		return "url: " + err.Error()
	}
	go srv.serve(func(q *request, n int) ([]byte, bool) {
		if q.method == "DESCRIBE" {
			return []byte(desc), true
		}
		return []byte(setup), q.method != "PLAY"
	})
	err := c.s.SetConnection(conn)
	if err != nil {
		return fmt.Sprintf("handshake failed (%v): describe answer %q, setup answer %q", err, desc, setup)
	}
	<-srv.done
	qs := srv.requests()
	if len(qs) != nm+2 {
		return fmt.Sprintf("%d requests for %d medias; describe answer %q", len(qs), nm, desc)
	}
	if got := qs[len(qs)-1].headers["session"]; got != id {
		return fmt.Sprintf("session identifier %q, expected %q; setup answer %q", got, id, setup)
	}
	return ""
}

// ---------------------------------------------------------------- C08

func md5hex(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func TestVerifC08(t *testing.T) {
	words := []string{"a", "Streaming Server", "x,y", "ab c;d", "N=once==", "0f3a", "realm", "nonce", "a/b+c=", " lead", "trail "}
	search(t, func(r *rand.Rand, n int) string {
		w := func() string { return words[r.Intn(len(words))] }
		token := func() string { return []string{"a", "0f3a", "realm", "nonce", "x-y.z", "a/b"}[r.Intn(6)] }
		kind := r.Intn(5) // 0,1 digest, 2 basic, 3 both, 4 neither
		user, pass := []string{"u", "user", "a-b", "???>>>", "\xff\xfe~", "a@b"}[r.Intn(6)], []string{"p", "pa.ss", "0", "~~~???", "\xfb\xff\xbf", "x/y:z"}[r.Intn(6)]
		mk := func(scheme string) (string, string, string) {
			type kv struct{ k, v string }
			var ps []string
			realm, nonce := w(), w()
			q := func(k, v string) string {
				if v == token() && r.Intn(2) == 0 || r.Intn(3) == 0 && !strings.ContainsAny(v, ", \"") {
					return k + "=" + v
				}
				return k + "=\"" + v + "\""
			}
			ps = append(ps, q("realm", realm))
			if scheme == "Digest" {
				ps = append(ps, q("nonce", nonce))
			} else {
				nonce = ""
			}
			for _, e := range []string{"stale=FALSE", "algorithm=MD5", "opaque=\"realm=\"", "qop=\"auth,auth-int\"", "xrealm=\"no\"", "domain=\"nonce=5, realm=6\""} {
				if r.Intn(4) == 0 {
					ps = append(ps, e)
				}
			}
			r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			return "WWW-Authenticate: " + scheme + " " + strings.Join(ps, []string{",", ", ", ",  "}[r.Intn(3)]) + "\r\n", realm, nonce
		}
		hdr, want := "", ""
		path := []string{"/x", "/a/b?c=d", "/"}[r.Intn(3)]
		url := "rtsp://127.0.0.1:99" + path
		dg := func(realm, nonce, method, u string) string {
			return fmt.Sprintf("Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"", user, realm, nonce, u,
				md5hex(md5hex(user+":"+realm+":"+pass)+":"+nonce+":"+md5hex(method+":"+u)))
		}
		var realm, nonce string
		basic := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
		switch kind {
		case 0, 1:
			hdr, realm, nonce = mk("Digest")
			want = dg(realm, nonce, "DESCRIBE", url)
		case 2:
			hdr, _, _ = mk("Basic")
			want = basic
		case 3:
			var h2 string
			hdr, realm, nonce = mk("Digest")
			h2, _, _ = mk("Basic")
			want = dg(realm, nonce, "DESCRIBE", url)
			if r.Intn(2) == 0 {
				hdr = h2 + hdr
			} else {
				hdr += h2
			}
		}
		hdr = strings.Replace(hdr, "WWW-Authenticate", randCase(r, "WWW-Authenticate"), 1)
		current("challenge %q", hdr)
		c := newClient()
		srv, conn := newServer()
		c.srv = srv
		defer c.stop()
		if err := c.s.ParsingURL("rtsp://" + neturl.UserPassword(user, pass).String() + "@127.0.0.1:99" + path); err != nil {
			return "url: " + err.Error()
		}
		ok := r.Intn(3) == 0
		go srv.serve(func(q *request, n int) ([]byte, bool) {
			switch {
			case q.method == "DESCRIBE" && n == 0:
				return reply(401, hdr, ""), true
			case q.method == "DESCRIBE" && ok:
				return reply(200, "", sdpOf([]media{{"video", "H264", "trackID=1", 90000}})), true
			case q.method == "DESCRIBE":
				return reply(404, "", ""), false
			}
			return reply(200, "Session: 1\r\n", ""), q.method != "PLAY"
		})
		c.s.SetConnection(conn)
		<-srv.done
		qs := srv.requests()
		if len(qs) < 2 {
			return fmt.Sprintf("no second DESCRIBE after %q", hdr)
		}
		if h, has := qs[0].headers["authorization"]; has {
			return fmt.Sprintf("Authorization %q before any challenge", h)
		}
		for i, q := range qs[1:] {
			u := url
			if q.method == "SETUP" {
				u = url + "/trackID=1"
			}
			w := want
			if kind != 2 && kind != 4 {
				w = dg(realm, nonce, q.method, u)
			}
			if got := q.headers["authorization"]; got != strings.TrimSpace(w) {
				return fmt.Sprintf("request %d %s after challenge %q user %q password %q: Authorization %q, expected %q", i+1, q.method, hdr, user, pass, got, w)
			}
		}
		return ""
	})
}

var _ = io.EOF

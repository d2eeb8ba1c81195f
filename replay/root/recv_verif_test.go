package rtspclient_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	rtspclient "github.com/NodeBoy2/rtspclient"
)

// ---------------------------------------------------------------- C02: nothing a server sends panics or hangs

func guarded(f func()) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

// within runs f and says whether it came to an end.
func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// streamCase: packets and replies of any content, then one that has to arrive.
func streamCase(r *rand.Rand, n int) string {
	codecs := []string{"H264", "H265", "HEVC", "bbw", "PCM", ""}
	nm := 1 + r.Intn(2)
	var ms []media
	for i := 0; i < nm; i++ {
		ms = append(ms, media{"video", codecs[r.Intn(len(codecs))], fmt.Sprint("t", i), 90000})
	}
	ms = append(ms, media{"audio", "SENTINEL", "s", 8000})
	c, err := connect(ms)
	if err != nil {
		return fmt.Sprintf("the handshake with medias %v failed: %v", ms, err)
	}
	defer c.stop()
	var sent [][]byte
	if n%7 == 0 {
		k := r.Intn(nm)
		for _, p := range fill(r, ms[k].codec) {
			sent = append(sent, frame(2*k, p))
		}
	}
	for i := r.Intn(40); i >= 0; i-- {
		ch := r.Intn(2*nm + 4)
		p := genPacket(r, ms[r.Intn(nm)].codec)
		switch r.Intn(6) {
		case 0:
			p = p[:r.Intn(len(p)+1)]
		case 1:
			p = p[:imin(len(p), 10+r.Intn(8))]
		case 2:
			p = mutate(r, p)
		}
		if len(p) > 65535 {
			p = p[:65535]
		}
		sent = append(sent, frame(ch, p))
	}
	if n%25 == 3 {
		at := r.Intn(len(sent) + 1)
		sent = append(sent[:at:at], append([][]byte{genReply(r, 60)}, sent[at:]...)...)
	}
	sentinel := fmt.Sprintf("0123456789ab-end-%d", r.Int())
	sent = append(sent, frame(2*nm, []byte(sentinel)))
	show := func() string {
		s := ""
		for i, f := range sent {
			if i < len(sent)-70 {
				continue
			}
			if len(f) > 120 {
				s += fmt.Sprintf(" %x..(%d bytes)", f[:120], len(f))
			} else {
				s += fmt.Sprintf(" %x", f)
			}
		}
		return fmt.Sprintf("medias %v, received (of %d):%s", ms, len(sent), s)
	}
	current("%s", show())
	go func() {
		for _, f := range sent {
			if r.Intn(3) == 0 && len(f) < 3000 {
				writeSplit(r, c.srv.conn, f)
			} else if _, err := c.srv.conn.Write(f); err != nil {
				return
			}
		}
	}()
	ok := c.waitFor(func() bool {
		return len(c.got) > 0 && c.got[len(c.got)-1].ch == 2*nm && string(c.got[len(c.got)-1].data) == sentinel[12:] || len(c.events) > 1
	})
	c.mu.Lock()
	defer c.mu.Unlock()
	if p := logged.panics(); p != "" {
		return show() + ": " + p
	}
	if !ok || len(c.events) > 1 {
		return show() + ": what was sent last does not arrive"
	}
	return ""
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// handshakeCase: a server that answers with anything.
func handshakeCase(r *rand.Rand) string {
	var log []string
	body := func() string {
		s := sdpOf([]media{{"video", "H264", "trackID=1", 90000}, {"audio", "PCMA", "trackID=2", 8000}}[:1+r.Intn(2)])
		extra := []string{"a=rtpmap:", "a=rtpmap:97", "a=rtpmap:97 ", "a=rtpmap:x/y/z", "a=rtpmap:96 H264/90000/2/3", "a=fmtp:", "a=fmtp:96", "a=fmtp:96 =;a;b=;=c; ", "a=x-dimensions:", "a=x-dimensions:1", "a=x-dimensions:1,2,3",
			"a=framerate:", "a=framerate:x", "a=control", "a=", "b=", "c=IN IP4", "m=", "t=", "r=", "z=", "m=video 0 RTP/AVP", "m=video 0 RTP/AVP 999", "o=", "k=", "m=audio 0 RTP/AVP 0", "v=0"}
		ls := strings.Split(s, "\r\n")
		for k := r.Intn(4); k > 0; k-- {
			i := r.Intn(len(ls))
			ls = append(ls[:i:i], append([]string{extra[r.Intn(len(extra))]}, ls[i:]...)...)
		}
		s = strings.Join(ls, "\r\n")
		if r.Intn(4) == 0 {
			s = string(mutate(r, []byte(s)))
		}
		return s
	}
	challenge := func() string {
		h := []string{"Digest", "Basic", "digest ", "", " ", "Digest realm", "Digest realm=", "Digest realm=\"", "Digest realm=\"\"", "Digest realm=\"a", "Digest nonce=\"b\"", "Digest realm=\"a\", nonce=", "Digest realm=\"a\", nonce=\"", "Digest ,,,", "Digest =\"", "Basic realm=\"x\"", "Digest realm=\"a\", nonce=\"b\""}[r.Intn(17)]
		if r.Intn(3) == 0 {
			h = string(mutate(r, []byte(h)))
		}
		return strings.NewReplacer("\r", "", "\n", "").Replace(h)
	}
	c := newClient()
	srv, conn := newServer()
	c.srv = srv
	defer c.stop()
	u := []string{"rtsp://127.0.0.1/x", "rtsp://a:b@127.0.0.1/x"}[r.Intn(2)]
	if err := c.s.ParsingURL(u); err != nil {
		return "url: " + err.Error()
	}
	stop := r.Intn(6)
	go srv.serve(func(q *request, n int) ([]byte, bool) {
		b := ""
		if q.method == "DESCRIBE" {
			b = body()
		}
		st := 200
		if r.Intn(3) == 0 {
			st = []int{401, 401, 404, 0, 999}[r.Intn(5)]
		}
		hs := []string{"", "Session: 1\r\n", "Session:\r\n", "Session: ;\r\n", ":\r\n", "Session\r\n", "WWW-Authenticate:\r\n", "\t: \r\n"}[r.Intn(8)]
		if st == 401 {
			hs = "WWW-Authenticate: " + challenge() + "\r\n"
		}
		a := reply(st, hs, b)
		log = append(log, fmt.Sprintf("%q", a))
		current("url %s, answers %s", u, strings.Join(log, " "))
		if n >= 8 || n == stop {
			srv.conn.Write(a)
			srv.conn.Close()
			return nil, false
		}
		return a, true
	})
	if !within(25*time.Second, func() { c.s.SetConnection(conn) }) {
		return fmt.Sprintf("the handshake does not end; url %s, answers %s", u, strings.Join(log, " "))
	}
	if p := logged.panics(); p != "" {
		return fmt.Sprintf("url %s, answers %s: %s", u, strings.Join(log, " "), p)
	}
	return ""
}

func TestVerifC02(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		switch n % 5 {
		case 0, 1:
			return streamCase(r, n/5)
		case 2:
			return handshakeCase(r)
		}
		b := mutate(r, genReply(r, 400))
		if r.Intn(3) == 0 {
			b = randBytes(r, r.Intn(60))
			if len(b) > 4 && r.Intn(2) == 0 {
				copy(b, "RTSP")
			}
		}
		current("message %q", b)
		how := ""
		if !within(20*time.Second, func() {
			how = guarded(func() {
				rtspclient.ParserRtspResponse(append([]byte{}, b...), &rtspclient.RtspResponseContext{})
				if len(b) >= 4 {
					(&rtspclient.RTPStreamProtocol{}).GetContentLength(append([]byte{}, b...))
				}
			})
		}) {
			how = "does not end"
		}
		if how != "" {
			return fmt.Sprintf("message %q: %s", b, how)
		}
		return ""
	})
}

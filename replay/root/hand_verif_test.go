package rtspclient_test

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"
)

// ---------------------------------------------------------------- C10

func TestVerifC10(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		c := newClient()
		srv, conn := newServer()
		c.srv = srv
		defer c.stop()
		cred := ""
		if r.Intn(3) > 0 {
			cred = "us:pw@"
		} else if r.Intn(3) == 0 {
			cred = "us@"
		}
		base := "rtsp://127.0.0.1/" + []string{"x", "a/b", ""}[r.Intn(3)]
		if err := c.s.ParsingURL(strings.Replace(base, "//", "//"+cred, 1)); err != nil {
			return err.Error()
		}
		codecs := []string{"H264", "H265", "PCMA", "bbw", "HEVC"}
		var ms []media
		for i := r.Intn(4); i > 0; i-- {
			ms = append(ms, media{"video", codecs[r.Intn(len(codecs))], []string{"trackID=1", "track2", "rtsp://o/t", "RTSP://p/q", "rt", "Rtsp"}[r.Intn(6)], 90000})
		}
		challenge := r.Intn(5) // 0 none, 1 basic, 2 digest, 3 both, 4 without a scheme
		again := challenge > 0 && r.Intn(6) == 0
		failAt, failHow := -1, 0
		if r.Intn(2) == 0 {
			failAt = r.Intn(len(ms) + 3)
			failHow = r.Intn(3) // other status, not RTSP-parsable, connection closed
		}
		badSdp := r.Intn(8) == 0
		desc := fmt.Sprintf("credentials %q, challenge %d (again %v), medias %v, answer %d fails in way %d, unreadable description %v", cred, challenge, again, ms, failAt, failHow, badSdp)
		current("%s", desc)
		wantAuth := ""
		redo := challenge > 0 && cred == "us:pw@"
		k := 0
		ids := []string{}
		go srv.serve(func(q *request, n int) ([]byte, bool) {
			if q.method == "DESCRIBE" && challenge > 0 && (n == 0 || again) {
				h := ""
				if challenge == 1 || challenge == 3 {
					h += "WWW-Authenticate: Basic realm=\"r\"\r\n"
				}
				if challenge == 2 || challenge == 3 {
					h += "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n"
				}
				return reply(401, h, ""), true
			}
			j := k
			k++
			if j == failAt {
				switch failHow {
				case 0:
					st := []int{404, 500, 201, 401}[r.Intn(4)]
					if q.method == "DESCRIBE" && st == 401 {
						st = 403
					}
					return reply(st, "", ""), true
				case 1:
					return []byte("RTSP\r\n\r\n"), true
				case 2:
					srv.conn.Close()
					return nil, false
				}
			}
			if q.method == "DESCRIBE" {
				if badSdp {
					return reply(200, "", "v=0\r\nm=\r\n"), true
				}
				return reply(200, "", sdpOf(ms)), true
			}
			id := ""
			if r.Intn(4) > 0 {
				id = fmt.Sprint("id", j)
			}
			if q.method == "SETUP" {
				ids = append(ids, id)
			}
			h := ""
			if id != "" {
				h = "Session: " + id + "\r\n"
			}
			return reply(200, h, ""), true
		})
		var err error
		over := make(chan bool)
		go func() { err = c.s.SetConnection(conn); close(over) }()
		select {
		case <-over:
		case <-time.After(20 * time.Second):
			return desc + ": the handshake did not end"
		}
		time.Sleep(2 * time.Millisecond)
		qs := srv.requests()
		ctx := func() string {
			s := desc + "; requests:"
			for _, q := range qs {
				s += fmt.Sprintf(" %q", q.raw)
			}
			return s + fmt.Sprintf("; error %v; events %v: ", err, c.events)
		}
		// what should have been sent
		type want struct{ method, url, session, transport string }
		var ws []want
		ok := true
		ws = append(ws, want{"DESCRIBE", base, "", ""})
		if challenge > 0 {
			if redo {
				ws = append(ws, want{"DESCRIBE", base, "", ""})
			}
			if !redo || again {
				ok = false
			}
		}
		if redo {
			switch challenge {
			case 1:
				wantAuth = "Basic " + base64.StdEncoding.EncodeToString([]byte("us:pw"))
			case 2, 3:
				wantAuth = "Digest"
			}
		}
		step := 0
		if ok && (failAt == 0 || badSdp || len(ms) == 0) {
			ok = false
		}
		sess := ""
		for i := 0; ok && i < len(ms); i++ {
			u := ms[i].control
			if !strings.HasPrefix(u, "rtsp") && !strings.HasPrefix(u, "RTSP") {
				u = base + "/" + u
			}
			ws = append(ws, want{"SETUP", u, sess, fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)})
			step++
			if failAt == step {
				ok = false
			} else if i < len(ids) {
				sess = ids[i]
			}
		}
		if ok {
			ws = append(ws, want{"PLAY", base, sess, ""})
			if failAt == step+1 {
				ok = false
			}
		}
		if len(qs) != len(ws) {
			return ctx() + fmt.Sprintf("%d requests, expected %d", len(qs), len(ws))
		}
		for i, q := range qs {
			if q.bad != "" {
				return ctx() + q.bad
			}
			w := ws[i]
			if q.method != w.method || q.url != w.url || q.headers["session"] != w.session || q.headers["transport"] != w.transport {
				return ctx() + fmt.Sprintf("request %d should be %+v", i, w)
			}
			a := q.headers["authorization"]
			if i == 0 && a != "" || i > 0 && !(a == wantAuth || wantAuth == "Digest" && strings.HasPrefix(a, "Digest username=\"us\"")) {
				return ctx() + fmt.Sprintf("request %d carries authorization %q, expected %q", i, a, wantAuth)
			}
		}
		if (err == nil) != ok {
			return ctx() + fmt.Sprintf("success expected: %v", ok)
		}
		c.mu.Lock()
		evs := append([]int{}, c.events...)
		c.mu.Unlock()
		got := 0
		for _, e := range evs {
			if e == 1 || e == 2 {
				got++
				if (e == 1) != ok {
					return ctx() + "wrong event"
				}
			}
		}
		if got != 1 {
			return ctx() + fmt.Sprintf("%d results reported", got)
		}
		if ok {
			for i, m := range ms {
				if c.s.RtpMediaMap[2*i].CodecName != m.codec {
					return ctx() + fmt.Sprintf("channel %d has codec %q", 2*i, c.s.RtpMediaMap[2*i].CodecName)
				}
			}
			// which packets the channels hand on shows the parsers they are registered with
			wantGot := 0
			for i, m := range ms {
				for k, p := range [][]byte{{0x1c, 0x45}, {98, 1, 3}} {
					srv.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
					srv.conn.Write(frame(2*i, append([]byte{0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, p...)))
					switch {
					case m.codec == "PCMA", m.codec == "H264" && k == 1, (m.codec == "H265" || m.codec == "HEVC") && k == 0:
						wantGot++
					}
				}
			}
			c.waitFor2(func() bool { return len(c.got) >= wantGot }, time.Second)
			time.Sleep(2 * time.Millisecond)
			c.mu.Lock()
			g := len(c.got)
			c.mu.Unlock()
			if g != wantGot {
				return ctx() + fmt.Sprintf("%d packets delivered, expected %d: a channel has the wrong parser", g, wantGot)
			}
		}
		return ""
	})
}

func (c *client) waitFor2(f func() bool, d time.Duration) {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		c.mu.Lock()
		ok := f()
		c.mu.Unlock()
		if ok {
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
}

package rtspclient

import (
	"crypto/md5"
	"encoding/base64"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func md5x(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

// ---------------------------------------------------------------- C09

func TestVerifC09(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		w := newWire()
		defer w.far.Close()
		s := w.s
		pick := func(v ...string) string { return v[r.Intn(len(v))] }
		s.rtspContext.rtspURL = pick("rtsp://h/x", "rtsp://h:99/a?b=c%20d&e=%d%s", "rtsp://[::1]/")
		s.rtspContext.sessionID = pick("", "12345", "a%sb", "x-y")
		s.rtspContext.userAgent = pick("None", "agent %d", "")
		s.rtspContext.setupHeaders = pick("", "", "X-A: b\r\n")
		s.rtspContext.cseq = r.Intn(1000) - 2
		if r.Intn(2) == 0 {
			s.rtspContext.bandwidth = r.Intn(100000) - 3
		}
		auth := r.Intn(4)
		user, pass, realm, nonce := pick("u", "u%s"), pick("p", "a:b"), pick("r", "R S"), pick("n0", "0f")
		if auth > 0 {
			s.rtspContext.authenicator = &Authenticator{realm: realm, nonce: nonce, username: user, password: pass, authenicatorType: auth - 1}
		}
		want := func(method, url string, extra map[string]string) map[string]string {
			m := map[string]string{"": method + " " + url + " RTSP/1.0", "cseq": strconv.Itoa(s.rtspContext.cseq), "user-agent": strings.TrimSpace(s.rtspContext.userAgent)}
			if method != "DESCRIBE" {
				m["session"] = s.rtspContext.sessionID
			}
			for k, v := range extra {
				m[k] = v
			}
			if s.rtspContext.bandwidth != 0 && (method == "DESCRIBE" || method == "SETUP" || method == "PLAY") {
				m["bandwidth"] = strconv.Itoa(s.rtspContext.bandwidth)
			}
			switch auth - 1 {
			case AuthenticatorTypeBasic:
				m["authorization"] = "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
			case AuthenticatorTypeDigest:
				m["authorization"] = fmt.Sprintf("Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"", user, realm, nonce, url,
					md5x(md5x(user+":"+realm+":"+pass)+":"+nonce+":"+md5x(method+":"+url)))
			}
			return m
		}
		trace := ""
		for step := 0; step < 1+r.Intn(6); step++ {
			open := s.rtspRequestInitial
			before, cs := w.text(), s.rtspContext.cseq
			var exp map[string]string
			var err error
			var call string
			switch r.Intn(5) {
			case 0:
				call = "SendDescribe()"
				exp = want("DESCRIBE", s.rtspContext.rtspURL, map[string]string{"accept": "application/sdp"})
				err = s.SendDescribe()
			case 1:
				u, a, b := pick("rtsp://h/t", "trackID=%d"), r.Intn(300)-5, r.Intn(300)
				call = fmt.Sprintf("SendTcpSetup(%q, %d, %d)", u, a, b)
				x := map[string]string{"transport": fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", a, b)}
				if s.rtspContext.setupHeaders != "" {
					x["x-a"] = "b"
				}
				exp = want("SETUP", u, x)
				err = s.SendTcpSetup(u, a, b)
			case 2:
				a, b := []int{0, 0, 1, 3600, -4}[r.Intn(5)], []int{1, 1, 0, 2, -1, 16}[r.Intn(6)]
				call = fmt.Sprintf("SendPlay(%d, %d)", a, b)
				x := map[string]string{"x-prebuffer": "maxtime=3.0"}
				if a != 0 {
					x["range"] = fmt.Sprintf("npt=%d.0-", a)
				}
				if b != 1 {
					x["speed"] = fmt.Sprintf("%f", float32(b))
				}
				exp = want("PLAY", s.rtspContext.rtspURL, x)
				err = s.SendPlay(a, b)
			case 3:
				call = "SendPause()"
				exp = want("PAUSE", s.rtspContext.rtspURL, nil)
				err = s.SendPause()
			case 4:
				call = "SendTeardown()"
				exp = want("TEARDOWN", s.rtspContext.rtspURL, nil)
				err = s.SendTeardown()
			}
			trace += call + "; "
			current("context %+v authenticator %+v calls %s", *s.rtspContext, s.rtspContext.authenicator, trace)
			ctx := fmt.Sprintf("session context %+v, authenticator %+v, calls %s: ", *s.rtspContext, s.rtspContext.authenicator, trace)
			if open != (err == nil) {
				return ctx + fmt.Sprintf("gate open %v, error %v", open, err)
			}
			if s.rtspRequestInitial {
				return ctx + "the gate is open after a request"
			}
			if !open {
				time.Sleep(2 * time.Millisecond)
				if w.text() != before || s.rtspContext.cseq != cs {
					return ctx + "a refused request sent or changed something"
				}
			} else {
				if s.rtspContext.cseq != cs+1 {
					return ctx + fmt.Sprintf("CSeq went from %d to %d", cs, s.rtspContext.cseq)
				}
				if !eventually(5*time.Second, func() bool { return strings.HasSuffix(w.text()[len(before):], "\r\n\r\n") }) {
					return ctx + fmt.Sprintf("request not sent completely: %q", w.text()[len(before):])
				}
				if step == 0 {
					time.Sleep(time.Millisecond)
				}
				raw := w.text()[len(before):]
				ls := strings.Split(strings.TrimSuffix(raw, "\r\n\r\n"), "\r\n")
				got := map[string]string{"": ls[0]}
				for _, l := range ls[1:] {
					i := strings.Index(l, ":")
					if i < 0 {
						return ctx + fmt.Sprintf("malformed line %q in %q", l, raw)
					}
					k := strings.ToLower(l[:i])
					if _, ok := got[k]; ok {
						return ctx + fmt.Sprintf("header %s twice in %q", k, raw)
					}
					got[k] = strings.TrimSpace(l[i+1:])
				}
				for k, v := range exp {
					if g, ok := got[k]; !ok || g != v {
						return ctx + fmt.Sprintf("request %q: header %q is %q, expected %q", raw, k, g, v)
					}
				}
				for k := range got {
					if _, ok := exp[k]; !ok {
						return ctx + fmt.Sprintf("request %q: header %q not expected", raw, k)
					}
				}
			}
			if r.Intn(3) > 0 {
				s.rtspRequestInitial = true
				trace += "(answered) "
			}
		}
		return ""
	})
}

// ---------------------------------------------------------------- C11

func TestVerifC11(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		pick := func(v ...string) string { return v[r.Intn(len(v))] }
		s := NewRtspClientSession(func(*RtspData) {}, func(*RtspEvent) {})
		s.username, s.password, s.address, s.rtspContext.rtspURL = pick("", "u0"), pick("", "p0"), pick("", "a0"), pick("", "rtsp://old/")
		ou, op, oa, ourl := s.username, s.password, s.address, s.rtspContext.rtspURL
		if r.Intn(8) == 0 {
			bad := pick("rtsp://a b/", "rtsp://h:x/", "rtsp://[::1/x", "rtsp://h/%zz", ":")
			current("url %q", bad)
			if err := s.ParsingURL(bad); err == nil {
				return fmt.Sprintf("url %q accepted", bad)
			}
			if s.username != ou || s.password != op || s.address != oa || s.rtspContext.rtspURL != ourl {
				return fmt.Sprintf("the refused url %q changed the session", bad)
			}
			return ""
		}
		host := pick("127.0.0.1", "cam.example", "[::1]", "[fe80::1:2]", "h")
		port := pick("", "", "8554", "554", "1", "0")
		ui := r.Intn(5)
		user, pass := pick("user", "a-b", "%40x", ""), pick("pw", "", "p%3Aq", "x-y")
		cred := ""
		switch ui {
		case 0:
			cred = user + "@"
			pass = ""
		case 1, 2:
			cred = user + ":" + pass + "@"
		}
		path := pick("", "/", "/a/b", "/a%20b", "/x?y=z", "/x?", "?q=1", "/a?b=c/d@e&f=%20", "/s;p=1?t")
		h := host
		if port != "" {
			h += ":" + port
		}
		u := pick("rtsp", "rtsp", "rtspu") + "://"
		text := u + cred + h + path
		current("url %q", text)
		if err := s.ParsingURL(text); err != nil {
			return fmt.Sprintf("url %q refused: %v", text, err)
		}
		addr := h
		if port == "" {
			addr = host + ":554"
		}
		if s.address != addr {
			return fmt.Sprintf("url %q: address %q, expected %q", text, s.address, addr)
		}
		dec := strings.NewReplacer("%40", "@", "%3A", ":")
		wu, wp := ou, op
		if cred != "" {
			wu, wp = dec.Replace(user), dec.Replace(pass)
		}
		if s.username != wu || s.password != wp {
			return fmt.Sprintf("url %q (before: user %q password %q): user %q password %q, expected %q %q", text, ou, op, s.username, s.password, wu, wp)
		}
		if s.rtspContext.rtspURL != u+h+path {
			return fmt.Sprintf("url %q: request url %q, expected %q", text, s.rtspContext.rtspURL, u+h+path)
		}
		return ""
	})
}

// ---------------------------------------------------------------- C12

func TestVerifC12(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		var w *wire
		w = newWire()
		defer w.far.Close()
		s := w.s
		s.timeoutSec = 0
		if n%7 == 6 {
			s.timeoutSec = 1
		}
		kind := r.Intn(6)
		s.rtspRequestInitial = r.Intn(2) == 0
		gate := s.rtspRequestInitial
		what := fmt.Sprintf("case %d, timeout %d s, gate open %v: ", kind, s.timeoutSec, gate)
		current("%s", what)
		bounded := func(f func()) bool {
			d := make(chan bool)
			go func() { f(); close(d) }()
			select {
			case <-d:
				return true
			case <-time.After(8 * time.Second):
				return false
			}
		}
		switch kind {
		case 0, 1: // an answer, or a closed queue
			s.timeoutSec = 3
			s.rtspResponseQueue = make(chan *RtspResponseContext, 2)
			ans := &RtspResponseContext{Status: 200}
			if kind == 0 {
				if r.Intn(3) == 0 {
					ans = nil
				}
				s.rtspResponseQueue <- ans
				s.rtspResponseQueue <- &RtspResponseContext{Status: 1}
			} else {
				ans = nil
				close(s.rtspResponseQueue)
			}
			var got *RtspResponseContext
			var err error
			if !bounded(func() { got, err = s.WaitRtspResponse() }) {
				return what + "waiting did not end"
			}
			if got != ans || (got == nil) == (err == nil) {
				return what + fmt.Sprintf("result %v, error %v; the answer was %v", got, err, ans)
			}
			if kind == 0 && len(s.rtspResponseQueue) != 1 {
				return what + "another answer was taken"
			}
			if s.tcpConn.GetStatus() != tcpnetwork.ConnStatusConnected || w.text() != "" {
				return what + "the connection was touched"
			}
		case 2: // no answer
			var got *RtspResponseContext
			var err error
			t0 := time.Now()
			if !bounded(func() { got, err = s.WaitRtspResponse() }) {
				return what + "waiting did not end"
			}
			if got != nil || err == nil {
				return what + fmt.Sprintf("result %v, error %v without an answer", got, err)
			}
			if d := time.Since(t0); d < time.Duration(s.timeoutSec)*time.Second-10*time.Millisecond {
				return what + fmt.Sprintf("gave up after %v", d)
			}
			if !eventually(3*time.Second, w.closed) {
				return what + "the connection is open after a timeout"
			}
		case 3: // closing
			if !bounded(s.Close) {
				return what + "closing did not end"
			}
			if !eventually(3*time.Second, w.closed) {
				return what + "the connection is open after Close"
			}
			k := strings.Count(w.text(), "TEARDOWN ")
			if k > 1 || gate && k != 1 || !gate && w.text() != "" || strings.Count(w.text(), "\r\n\r\n") != k {
				return what + fmt.Sprintf("Close sent %q", w.text())
			}
		case 4: // never connected
			s2 := NewRtspClientSession(func(*RtspData) {}, func(*RtspEvent) {})
			if r.Intn(2) == 0 {
				a, b := net.Pipe()
				defer a.Close()
				defer b.Close()
				s2.tcpConn = tcpnetwork.NewConnection(a, 10, func(*tcpnetwork.ConnEvent) {})
			}
			cseq := s2.rtspContext.cseq
			if !bounded(s2.Close) {
				return what + "closing did not end"
			}
			if s2.rtspContext.cseq != cseq || !s2.rtspRequestInitial {
				return what + "closing a session that is not connected made a request"
			}
			return ""
		case 5: // closed already
			w.far.Close()
			if !eventually(3*time.Second, func() bool { return s.tcpConn.GetStatus() != tcpnetwork.ConnStatusConnected }) {
				return ""
			}
			s.timeoutSec = 30
			if !bounded(s.Close) {
				return what + "closing a closed session did not end"
			}
			if s.tcpConn.GetStatus() != tcpnetwork.ConnStatusDisconnected || s.rtspRequestInitial != gate {
				return what + "closing a closed session changed it"
			}
			return ""
		}
		if !s.rtspRequestInitial {
			return what + "the gate stays closed"
		}
		return ""
	})
}

package sdp_test

// Replay harness for the session descriptions: looks for an input that shows a violation after a proof obligation
// failed. It uses the exported interface and oracles of its own.

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func budget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 20
	}
	return time.Duration(n) * time.Second
}

func current(format string, a ...interface{}) {
	if f := os.Getenv("VERIF_CASE"); f != "" {
		os.WriteFile(f, []byte(fmt.Sprintf(format, a...)+"\n"), 0644)
	}
}

func search(t *testing.T, f func(r *rand.Rand, n int) string) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	end := time.Now().Add(budget())
	n := 0
	one := func(sd int64) (m string) {
		defer func() {
			if e := recover(); e != nil {
				m = fmt.Sprintf("panic %v on %s", e, last)
			}
		}()
		return f(rand.New(rand.NewSource(sd)), n)
	}
	for ; time.Now().Before(end); n++ {
		sd := seed*1000003 + int64(n)
		if m := one(sd); m != "" {
			if m2 := one(sd); m2 != "" {
				if len(m2) > 6000 {
					m2 = m2[:6000] + "..."
				}
				fmt.Printf("FAILING-INPUT case %d seed %d: %s\n", n, sd, m2)
				t.Fatal("violated")
			}
		}
	}
	fmt.Printf("CASES %d\n", n)
}

// last describes the input that is being tried.
var last string

func trying(format string, a ...interface{}) { last = fmt.Sprintf(format, a...) }

func lineStr(s sdp.Session) string {
	var b strings.Builder
	for _, l := range s {
		fmt.Fprintf(&b, "%q=%q ", rune(l.Type), l.Value)
	}
	return b.String()
}

// ended runs f and reports whether it came back.
func ended(f func()) (r string) {
	c := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				c <- fmt.Sprintf("panic: %v", e)
			}
		}()
		f()
		c <- ""
	}()
	select {
	case m := <-c:
		return m
	case <-time.After(8 * time.Second):
		return "does not end"
	}
}

var types = []rune("vosiuepcbtrzkam")

func pick(r *rand.Rand, a ...string) string { return a[r.Intn(len(a))] }

func word(r *rand.Rand, no string) string {
	al := "abcXYZ019-_/:=.,;+ é\t"
	for {
		var b strings.Builder
		for k := 1 + r.Intn(6); k > 0; k-- {
			c := []rune(al)[r.Intn(utf8.RuneCountInString(al))]
			if !strings.ContainsRune(no, c) {
				b.WriteRune(c)
			}
		}
		if b.Len() > 0 {
			return b.String()
		}
	}
}

func number(r *rand.Rand) string {
	return pick(r, "0", "1", "-1", "5", "60", "255", "256", "257", "1000000", "2873397496", "2208988800", "2208988799", "9223372036854775807", "9223372036854775808",
		"18446744073709551615", "18446744073709551616", "-9223372036854775808", "007", "", "x", "+3", "106751", "106752", "2562047", "2562048", "153722867", "153722868", "9223372036", "9223372037", "4", "127", "128")
}

func duration(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return strconv.Itoa(r.Intn(100000)) + pick(r, "", "d", "h", "m", "s")
	}
	return number(r) + pick(r, "", "d", "h", "m", "s", "w", "D", "dd")
}

// value makes a plausible or broken value for a line of type t.
func value(r *rand.Rand, t rune) string {
	if r.Intn(6) == 0 {
		return pick(r, "", " ", "  ", ":", "/", "a:", ":b", "a ", " a", "a  b", "1 2 3 4 5 6", "1 2", "\xff\xfe", "=", "IN IP4 1.2.3.4/1/2/3", "IN IP4", "IN IP4 ", "0 0 ", "d 1 0", "1 s", "7d 1h 0 ", "7d 1h 0 25h ", "0")
	}
	sp := pick(r, " ", " ", " ", " ", " ", " ", "  ")
	ip := pick(r, "1.2.3.4", "224.2.1.1", "ff15::101", "FF1E:03AD::7F2E:172A:1E24", "example.com", "", "1.2.3")
	switch t {
	case 'o':
		return pick(r, "jdoe", "-", "") + sp + number(r) + sp + number(r) + sp + "IN" + sp + "IP4" + sp + ip
	case 'c':
		a := ip
		for k := r.Intn(4); k > 0; k-- {
			a += "/" + number(r)
		}
		return pick(r, "IN", "", "XX") + sp + pick(r, "IP4", "IP6", "") + sp + a + pick(r, "", "", "", " ", " x")
	case 'b':
		return pick(r, "CT", "AS", "X-YZ", "") + pick(r, ":", ":", ":", "") + number(r)
	case 't':
		return number(r) + sp + number(r)
	case 'r':
		v := duration(r) + sp + duration(r)
		for k := r.Intn(4); k > 0; k-- {
			v += sp + duration(r)
		}
		return v
	case 'z':
		v := number(r) + sp + duration(r)
		for k := r.Intn(3); k > 0; k-- {
			v += sp + number(r) + sp + duration(r)
		}
		return v + pick(r, "", "", " ")
	case 'k':
		return pick(r, "prompt", "clear:key", "base64:a:b", ":x", "uri:")
	case 'a':
		return pick(r, "recvonly", "rtpmap:96 H264/90000", "fmtp:96 a=b;c=d", "control:track1", "x:", ":y", "x:y:z", "rtpmap:97 X/8000/2")
	case 'm':
		return pick(r, "audio", "video", "") + sp + number(r) + pick(r, "", "", "/2", "/", "/x") + sp + "RTP/AVP" + sp + pick(r, "0", "96 97", "96  97", "")
	case 'v':
		return number(r)
	}
	return word(r, "")
}

func randSession(r *rand.Rand) sdp.Session {
	var s sdp.Session
	order := "vosiuepcbtrzkamicbka"
	k := 0
	for n := r.Intn(14); n > 0; n-- {
		var t rune
		if r.Intn(3) == 0 {
			t = types[r.Intn(len(types))]
		} else {
			k += r.Intn(3)
			if k >= len(order) {
				k = 14
			}
			t = rune(order[k])
			if r.Intn(5) > 0 {
				k++
			}
		}
		if r.Intn(60) == 0 {
			t = rune(r.Intn(0x300))
		}
		s = append(s, sdp.Line{Type: sdp.Type(t), Value: []byte(value(r, t))})
	}
	return s
}

func decode(s sdp.Session) (m *sdp.Message, err error, bad string) {
	m = new(sdp.Message)
	bad = ended(func() {
		d := sdp.NewDecoder(s)
		err = d.Decode(m)
	})
	return
}

func TestVerifC13(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		if n%4 == 0 {
			b := make([]byte, r.Intn(60))
			al := "vosiuepcbtrzkam= \n\n\r\t:/0123456789dhms\xff\xc3é"
			for i := range b {
				b[i] = al[r.Intn(len(al))]
			}
			if r.Intn(2) == 0 {
				b = randSession(r).AppendTo(nil)
				if len(b) > 0 && r.Intn(2) == 0 {
					b[r.Intn(len(b))] = al[r.Intn(len(al))]
				}
			}
			trying("text %q", b)
			if n%100 == 0 {
				current("%s", last)
			}
			var s sdp.Session
			var err error
			if m := ended(func() { s, err = sdp.DecodeSession(b, nil) }); m != "" {
				return m + " when splitting " + last
			}
			if err != nil {
				return ""
			}
			if _, _, m := decode(s); m != "" {
				return m + " when decoding " + last
			}
			return ""
		}
		s := randSession(r)
		trying("lines %s", lineStr(s))
		if _, _, m := decode(s); m != "" {
			return m + " when decoding " + last
		}
		return ""
	})
}

// ---- lines

func refLines(b []byte) (s sdp.Session, bad bool) {
	for _, l := range strings.Split(string(b), "\n") {
		l = string(bytes.TrimSpace([]byte(l)))
		if l == "" {
			continue
		}
		i := strings.IndexByte(l, '=')
		if i < 0 || i+1 == len(l) {
			return s, true
		}
		c, _ := utf8.DecodeRuneInString(l[:i])
		s = append(s, sdp.Line{Type: sdp.Type(c), Value: []byte(l[i+1:])})
	}
	return s, false
}

func sameLines(a, b sdp.Session) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || !bytes.Equal(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

func refEncode(b []byte, s sdp.Session) []byte {
	for i, l := range s {
		if i > 0 {
			b = append(b, '\n')
		}
		b = append(b, string(rune(l.Type))...)
		b = append(b, '=')
		b = append(b, l.Value...)
	}
	return b
}

// spare is a session with some lines and others left behind them.
func spare(r *rand.Rand) sdp.Session {
	var s sdp.Session
	for k := r.Intn(8); k > 0; k-- {
		s = append(s, sdp.Line{Type: sdp.Type(types[r.Intn(len(types))]), Value: []byte(word(r, "\n"))})
	}
	s = append(make(sdp.Session, 0, len(s)+r.Intn(5)), s...)
	return s[:r.Intn(len(s)+1)]
}

func clone(s sdp.Session) sdp.Session {
	var c sdp.Session
	for _, l := range s {
		c = append(c, sdp.Line{Type: l.Type, Value: append([]byte{}, l.Value...)})
	}
	return c
}

func TestVerifC14(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		var b []byte
		for k := r.Intn(7); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				b = append(b, pick(r, "", " ", "\t\r", "  \v\f", "\u00a0", "\u0085")...)
			case 1:
				b = append(b, pick(r, "=", "a=", "=b", "a", "é=x", "ab=c", "a==", "\xff=x", "a= ", "a=\u00a0", "世=x y", "\x80=\x80")...)
			default:
				b = append(b, pick(r, "", "", " ", "\t")...)
				b = append(b, string(types[r.Intn(len(types))])...)
				b = append(b, '=')
				b = append(b, word(r, "\n")...)
				b = append(b, pick(r, "", "", "\r", "  ")...)
			}
			if k > 1 || r.Intn(2) == 0 {
				b = append(b, pick(r, "\n", "\n", "\r\n", "\n\n")...)
			}
		}
		sp := spare(r)
		before := clone(sp)
		trying("text %q added to %s", b, lineStr(sp))
		want, bad := refLines(b)
		want = append(clone(sp), want...)
		in := append(make([]byte, 0, len(b)+r.Intn(4)), b...)
		got, err := sdp.DecodeSession(in, sp)
		if (err != nil) != bad {
			return fmt.Sprintf("%s: error %v, malformed %v", last, err, bad)
		}
		if !sameLines(got, want) {
			return fmt.Sprintf("%s: decoded to %s, want %s", last, lineStr(got), lineStr(want))
		}
		if !bytes.Equal(in, b) {
			return last + ": the input was changed"
		}
		for i := range in {
			in[i] ^= 0x5a
		}
		if !sameLines(got, want) {
			return last + ": shares memory with the input"
		}
		_ = before
		var one sdp.Line
		pre := []byte(word(r, ""))
		if r.Intn(2) == 0 {
			one.Value = append(one.Value, pre...)
		}
		pre = append([]byte{}, one.Value...)
		x := append([]byte{}, b...)
		i := bytes.IndexByte(x, '=')
		e := one.Decode(x)
		if (e == nil) != (i >= 0 && i+1 < len(x)) {
			return fmt.Sprintf("Line.Decode(%q): %v", x, e)
		}
		if e == nil {
			c, _ := utf8.DecodeRune(b[:i])
			v := append(pre, b[i+1:]...)
			for i := range x {
				x[i] ^= 0x5a
			}
			if one.Type != sdp.Type(c) || !bytes.Equal(one.Value, v) {
				return fmt.Sprintf("Line.Decode(%q): type %q value %q", b, rune(one.Type), one.Value)
			}
		}
		// encoding
		s := clone(got)
		for k := r.Intn(3); k > 0; k-- {
			s = append(s, sdp.Line{Type: sdp.Type([]rune{'a', 'é', '世', '😀', 0x7f, 0x80}[r.Intn(6)]), Value: []byte(word(r, " \t\n"))})
		}
		head := []byte(pick(r, "", "", "head"))
		out := s.AppendTo(append(make([]byte, 0, r.Intn(40)), head...))
		if w := refEncode(head, s); !bytes.Equal(out, w) {
			return fmt.Sprintf("encoding %s: %q, want %q", lineStr(s), out, w)
		}
		out = s.AppendTo(nil)
		ok := true
		for _, l := range s {
			ok = ok && len(l.Value) > 0 && len(bytes.TrimSpace(l.Value)) == len(l.Value) && !bytes.Contains(l.Value, []byte("\n")) &&
				l.Type != '=' && l.Type != '\n' && utf8.ValidRune(rune(l.Type)) && strings.TrimSpace(string(rune(l.Type))) != "" && l.Type != utf8.RuneError
		}
		if ok {
			back, err := sdp.DecodeSession(out, nil)
			if err != nil || !sameLines(back, s) {
				return fmt.Sprintf("encoding %s and decoding gives %s (%v)", lineStr(s), lineStr(back), err)
			}
		}
		return ""
	})
}

// ---- fields

func anyInt(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return []int{0, 1, -1, 9, 10, 11, 99, 100, 101, -9, -10, 1<<63 - 1, -1 << 63, 1 << 31, -1 << 31, 999, 1000, 1001, 9999999999, 10000000000, 255, 256}[r.Intn(22)]
	case 1:
		return r.Intn(2000) - 1000
	case 2:
		return int(r.Uint64())
	}
	return int(r.Uint64() >> uint(r.Intn(64)))
}

func anyStamp(r *rand.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return []uint64{0, 1, 2208988800, 2208988799, 2208988801, 2873397496, 1<<63 - 1, 1 << 32, 1<<32 - 1, 10, 9, 100}[r.Intn(12)]
	case 1:
		return uint64(r.Intn(1 << 30))
	}
	return r.Uint64() >> uint(1+r.Intn(63))
}

func anyIP(r *rand.Rand) net.IP {
	if r.Intn(2) == 0 {
		ip := net.IPv4(byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)))
		if r.Intn(2) == 0 {
			return ip.To4()
		}
		return ip
	}
	ip := make(net.IP, 16)
	for i := range ip {
		if r.Intn(3) == 0 {
			ip[i] = byte(r.Intn(256))
		}
	}
	ip[0] = 0xfe
	return ip
}

func anyConn(r *rand.Rand) sdp.ConnectionData {
	c := sdp.ConnectionData{IP: anyIP(r), NetworkType: pick(r, "", "IN", "XN"), AddressType: pick(r, "", "IP4", "IP6", "ZZ")}
	small := func() byte { return byte([]int{0, 1, 3, 9, 10, 16, 99, 100, 127, 128, 200, 255}[r.Intn(12)]) }
	if c.IP.To4() != nil {
		c.TTL = small()
		if c.TTL != 0 {
			c.Addresses = small()
		}
	} else {
		c.Addresses = small()
	}
	return c
}

func anyDuration(r *rand.Rand) time.Duration {
	u := []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour}[r.Intn(4)]
	d := time.Duration(r.Intn(2000)) * u
	if r.Intn(6) == 0 {
		d = -d
	}
	if r.Intn(6) == 0 {
		d = []time.Duration{0, 106751 * 24 * time.Hour, 9223372036 * time.Second, 90 * time.Minute, 3601 * time.Second}[r.Intn(5)]
	}
	return d
}

func def(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func connEq(a, b sdp.ConnectionData) bool {
	return a.NetworkType == b.NetworkType && a.AddressType == b.AddressType && a.IP.Equal(b.IP) && a.TTL == b.TTL && a.Addresses == b.Addresses
}

func TestVerifC15(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		var s sdp.Session
		media := r.Intn(2) == 0
		var md sdp.MediaDescription
		startMedia := func() {
			md = sdp.MediaDescription{Type: word(r, " "), Port: anyInt(r), Protocol: word(r, " "), Format: word(r, " ")}
			if r.Intn(2) == 0 {
				md.PortsNumber = anyInt(r)
			}
			for k := r.Intn(3); k > 0; k-- {
				md.Format += " " + word(r, " ")
			}
			s = s.AddMediaDescription(md)
		}
		kind := r.Intn(9)
		var check func(m *sdp.Message) bool
		switch kind {
		case 0:
			o := sdp.Origin{Username: word(r, " "), SessionID: anyInt(r), SessionVersion: anyInt(r), NetworkType: pick(r, "", word(r, " ")), AddressType: pick(r, "", word(r, " ")), Address: pick(r, "1.2.3.4", "::1", word(r, " "), "host")}
			s = s.AddOrigin(o)
			w := o
			w.NetworkType = def(o.NetworkType, "IN")
			if o.AddressType == "" {
				w.AddressType = "IP4"
				if i := strings.IndexAny(o.Address, ":."); i >= 0 && o.Address[i] == ':' {
					w.AddressType = "IP6"
				}
			}
			check = func(m *sdp.Message) bool { return m.Origin == w }
		case 1:
			startMedia()
			check = func(m *sdp.Message) bool { return len(m.Medias) == 1 && m.Medias[0].Description == md }
		case 2:
			c := anyConn(r)
			if media {
				startMedia()
			}
			s = s.AddConnectionData(c)
			w := c
			w.NetworkType = def(c.NetworkType, "IN")
			if c.AddressType == "" {
				w.AddressType = "IP6"
				if c.IP.To4() != nil {
					w.AddressType = "IP4"
				}
			}
			check = func(m *sdp.Message) bool {
				if media {
					return connEq(m.Medias[0].Connection, w)
				}
				return connEq(m.Connection, w)
			}
		case 3:
			bt := sdp.BandwidthType(pick(r, "CT", "AS"))
			v := anyInt(r)
			if media {
				startMedia()
			}
			s = s.AddBandwidth(bt, v)
			check = func(m *sdp.Message) bool {
				if media {
					return reflect.DeepEqual(m.Medias[0].Bandwidths, sdp.Bandwidths{bt: v})
				}
				return len(m.Bandwidths) == 1 && m.Bandwidths[bt] == v
			}
		case 4:
			k := word(r, ":")
			var vs []string
			for j := r.Intn(3); j > 0; j-- {
				vs = append(vs, word(r, ""))
			}
			if media {
				startMedia()
			}
			s = s.AddAttribute(k, vs...)
			w := sdp.Attributes{k: {strings.Join(vs, " ")}}
			check = func(m *sdp.Message) bool {
				if media {
					return reflect.DeepEqual(m.Medias[0].Attributes, w)
				}
				return reflect.DeepEqual(m.Attributes, w)
			}
		case 5:
			e := sdp.Encryption{Method: word(r, ":"), Key: pick(r, "", word(r, ""))}
			if media {
				startMedia()
			}
			s = s.AddEncryption(e)
			check = func(m *sdp.Message) bool {
				if media {
					return m.Medias[0].Encryption == e
				}
				return m.Encryption == e
			}
		case 6, 7:
			var want []sdp.Timing
			for k := 1 + r.Intn(3); k > 0; k-- {
				a, b := anyStamp(r), anyStamp(r)
				w := sdp.Timing{Start: sdp.NTPToTime(a), End: sdp.NTPToTime(b)}
				s = s.AddTimingNTP(a, b)
				if r.Intn(2) == 0 {
					w.Repeat, w.Active = anyDuration(r), anyDuration(r)
					for j := 1 + r.Intn(3); j > 0; j-- {
						w.Offsets = append(w.Offsets, anyDuration(r))
					}
					if r.Intn(2) == 0 {
						s = s.AddRepeatTimes(w.Repeat, w.Active, w.Offsets...)
					} else {
						s = s.AddRepeatTimesCompact(w.Repeat, w.Active, w.Offsets...)
					}
				}
				want = append(want, w)
			}
			check = func(m *sdp.Message) bool { return reflect.DeepEqual(m.Timing, want) }
		case 8:
			v := anyInt(r)
			s = s.AddVersion(v)
			check = func(m *sdp.Message) bool { return m.Version == v }
		}
		trying("%s", lineStr(s))
		m := new(sdp.Message)
		d := sdp.NewDecoder(s)
		if err := d.Decode(m); err != nil {
			return fmt.Sprintf("%s: %v", last, err)
		}
		if !check(m) {
			return fmt.Sprintf("%s: decoded to %+v", last, *m)
		}
		return ""
	})
}

// ---- numbers

func refInterval(s string) (time.Duration, bool) {
	if s == "" {
		return 0, false
	}
	u := map[byte]int64{'d': 86400, 'h': 3600, 'm': 60, 's': 1}[s[len(s)-1]]
	if u != 0 {
		s = s[:len(s)-1]
	} else {
		u = 1
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false
	}
	u *= 1e9
	if p := v * u; p/u == v && !(v == -1 && u == -1<<63) {
		return time.Duration(p), true
	}
	return 0, false
}

func TestVerifC16(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		// integers
		i := anyInt(r)
		if s := (sdp.Session{}).AddVersion(i); len(s) != 1 || string(s[0].Value) != strconv.Itoa(i) {
			return fmt.Sprintf("integer %d is written as %q", i, s[0].Value)
		}
		by := byte(1 + r.Intn(255))
		if s := (sdp.Session{}).AddConnectionData(sdp.ConnectionData{IP: net.IPv4(1, 2, 3, 4), TTL: by}); string(s[0].Value) != fmt.Sprintf("IN IP4 1.2.3.4/%d", by) {
			return fmt.Sprintf("TTL %d is written as %q", by, s[0].Value)
		}
		if s := (sdp.Session{}).AddConnectionData(sdp.ConnectionData{IP: net.IPv4(by, by/2, 255-by, 9), TTL: by}); string(s[0].Value) != fmt.Sprintf("IN IP4 %d.%d.%d.9/%d", by, by/2, 255-by, by) {
			return fmt.Sprintf("address with %d is written as %q", by, s[0].Value)
		}
		// durations
		v := duration(r)
		s := sdp.Session{{Type: 't', Value: []byte("0 0")}, {Type: 'r', Value: []byte("0 0 " + v)}}
		p := r.Intn(3)
		f := []string{"1", "2", "3"}
		f[p] = v
		s[1].Value = []byte(strings.Join(f, " "))
		w, ok := refInterval(v)
		if strings.ContainsAny(v, " ") {
			ok = false
		}
		trying("%s", lineStr(s))
		m := new(sdp.Message)
		d := sdp.NewDecoder(s)
		err := d.Decode(m)
		if (err == nil) != ok {
			return fmt.Sprintf("%s: error %v for duration %q", last, err, v)
		}
		if ok {
			g := m.Timing[0]
			if x := []time.Duration{g.Repeat, g.Active, g.Offsets[0]}[p]; x != w {
				return fmt.Sprintf("%s: duration %q is decoded to %v", last, v, x)
			}
		}
		// TTL and number of addresses
		a, b := number(r), number(r)
		c4 := r.Intn(2) == 0
		cv := "IN IP4 224.2.1.1/" + a
		two := r.Intn(2) == 0 && a != "" && b != ""
		if two {
			cv += "/" + b
		}
		if !c4 {
			cv, two = "IN IP6 FF15::101/"+a, false
		}
		s = sdp.Session{{Type: 'c', Value: []byte(cv)}}
		if r.Intn(2) == 0 {
			s = append(sdp.Session{{Type: 'm', Value: []byte("audio 1 RTP/AVP 0")}}, s...)
		}
		na, ea := strconv.ParseUint(a, 10, 8)
		nb, eb := strconv.ParseUint(b, 10, 8)
		if a == "" {
			na, ea = 0, nil
		}
		trying("%s", lineStr(s))
		m = new(sdp.Message)
		d = sdp.NewDecoder(s)
		err = d.Decode(m)
		ok = ea == nil && (!two || eb == nil)
		if (err == nil) != ok {
			return fmt.Sprintf("%s: error %v", last, err)
		}
		if ok {
			c := m.Connection
			if len(m.Medias) > 0 {
				c = m.Medias[0].Connection
			}
			wt, wn := na, uint64(0)
			if two {
				wn = nb
			}
			if !c4 {
				wt, wn = 0, na
			}
			if uint64(c.TTL) != wt || uint64(c.Addresses) != wn {
				return fmt.Sprintf("%s: TTL %d addresses %d", last, c.TTL, c.Addresses)
			}
		}
		// time stamps
		s = sdp.Session{{Type: 't', Value: []byte(a + " " + b)}}
		ta, ea := strconv.ParseUint(a, 10, 64)
		tb, eb := strconv.ParseUint(b, 10, 64)
		trying("%s", lineStr(s))
		m = new(sdp.Message)
		d = sdp.NewDecoder(s)
		err = d.Decode(m)
		ok = ea == nil && eb == nil
		if (err == nil) != ok {
			return fmt.Sprintf("%s: error %v", last, err)
		}
		tm := func(v uint64) time.Time {
			if v == 0 {
				return time.Time{}
			}
			return time.Unix(int64(v-2208988800), 0)
		}
		if ok && (!m.Timing[0].Start.Equal(tm(ta)) || !m.Timing[0].End.Equal(tm(tb))) {
			return fmt.Sprintf("%s: decoded to %v", last, m.Timing)
		}
		x := anyStamp(r)
		if g := sdp.TimeToNTP(sdp.NTPToTime(x)); g != x {
			return fmt.Sprintf("time stamp %d becomes %d", x, g)
		}
		if g := sdp.NTPToTime(x); !g.Equal(tm(x)) {
			return fmt.Sprintf("time stamp %d becomes %v", x, g)
		}
		return ""
	})
}

// ---- what a line affects

func refKV(v string) (string, string, bool) {
	i := strings.IndexByte(v, ':')
	if i < 0 {
		return v, "", true
	}
	return v[:i], v[i+1:], i+1 < len(v)
}

func TestVerifC17(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		var s sdp.Session
		if r.Intn(4) == 0 {
			s = randSession(r)
		} else {
			add := func(t rune, v string) { s = append(s, sdp.Line{Type: sdp.Type(t), Value: []byte(v)}) }
			level := func() {
				for _, t := range "icbbkaaaa" {
					if r.Intn(2) == 0 {
						switch t {
						case 'i':
							add(t, word(r, ""))
						case 'c':
							add(t, "IN IP4 "+pick(r, "1.2.3.4", "5.6.7.8/9", "5.6.7.9/9/2"))
						case 'b':
							add(t, pick(r, "CT:", "AS:")+strconv.Itoa(r.Intn(1000)))
						case 'k':
							add(t, pick(r, "prompt", "clear:x", "clear:y"))
						case 'a':
							add(t, pick(r, "x", "y:1", "y:2", "z:1:2", "x:0"))
						}
					}
				}
			}
			add('v', "0")
			add('s', "name")
			level()
			for k := r.Intn(7); k > 0; k-- {
				add('m', pick(r, "audio ", "video ")+strconv.Itoa(r.Intn(9999))+" RTP/AVP "+strconv.Itoa(r.Intn(128)))
				level()
			}
		}
		trying("%s", lineStr(s))
		m := new(sdp.Message)
		d := sdp.NewDecoder(s)
		if d.Decode(m) != nil {
			return ""
		}
		type level struct {
			info, conn, desc string
			conns            int
			attrs            map[string][]string
			bw               map[string]int
			enc              sdp.Encryption
		}
		newLevel := func() *level { return &level{attrs: map[string][]string{}, bw: map[string]int{}} }
		cur := newLevel()
		all := []*level{cur}
		for _, l := range s {
			v := string(l.Value)
			switch l.Type {
			case 'm':
				cur = newLevel()
				cur.desc = v
				all = append(all, cur)
			case 'i':
				cur.info = v
			case 'c':
				cur.conn = v
				cur.conns++
			case 'a':
				k, x, _ := refKV(v)
				cur.attrs[k] = append(cur.attrs[k], x)
			case 'k':
				k, x, _ := refKV(v)
				cur.enc = sdp.Encryption{Method: k, Key: x}
			case 'b':
				k, x, _ := refKV(v)
				cur.bw[k], _ = strconv.Atoi(x)
			}
		}
		if len(m.Medias) != len(all)-1 {
			return fmt.Sprintf("%s: %d medias", last, len(m.Medias))
		}
		timed := false
		for _, l := range s {
			timed = timed || l.Type == 't' || l.Type == 'r'
		}
		for i, w := range all {
			info, conn, attrs, enc := m.Info, m.Connection, m.Attributes, m.Encryption
			bw := map[string]int{}
			for k, v := range m.Bandwidths {
				bw[string(k)] = v
			}
			if i > 0 {
				x := m.Medias[i-1]
				info, conn, attrs, enc = x.Title, x.Connection, x.Attributes, x.Encryption
				bw = map[string]int{}
				for k, v := range x.Bandwidths {
					bw[string(k)] = v
				}
				f := strings.Fields(w.desc)
				if x.Description.Type != f[0] || x.Description.Format != strings.Join(f[3:], " ") {
					return fmt.Sprintf("%s: media %d is described by %+v", last, i, x.Description)
				}
			}
			if info != w.info || enc != w.enc || !reflect.DeepEqual(bw, w.bw) || len(attrs) != len(w.attrs) || len(attrs) > 0 && !reflect.DeepEqual(map[string][]string(attrs), w.attrs) {
				return fmt.Sprintf("%s: level %d has info %q encryption %+v bandwidths %v attributes %v", last, i, info, enc, bw, attrs)
			}
			f := strings.Split(w.conn, " ")
			if len(f) < 3 {
				f = []string{"", "", ""}
			}
			a := strings.Split(f[2], "/")
			if conn.NetworkType != f[0] || conn.AddressType != f[1] || !conn.IP.Equal(net.ParseIP(a[0])) {
				return fmt.Sprintf("%s: level %d has connection %+v", last, i, conn)
			}
			if w.conns == 0 && (conn.TTL != 0 || conn.Addresses != 0) || w.conns == 1 && f[2] == "1.2.3.4" && (conn.TTL != 0 || conn.Addresses != 0) {
				return fmt.Sprintf("%s: level %d has connection %+v", last, i, conn)
			}
			if f[2] == "5.6.7.8/9" && (conn.TTL != 9 || conn.Addresses != 0) || f[2] == "5.6.7.9/9/2" && (conn.TTL != 9 || conn.Addresses != 2) {
				return fmt.Sprintf("%s: level %d has connection %+v", last, i, conn)
			}
		}
		return ""
	})
}

// ---- adding fields

func TestVerifC20(t *testing.T) {
	compact := func(d time.Duration) string {
		switch {
		case d == 0:
			return "0"
		case d%(24*time.Hour) == 0:
			return fmt.Sprintf("%dd", d/(24*time.Hour))
		case d%time.Hour == 0:
			return fmt.Sprintf("%dh", d/time.Hour)
		case d%time.Minute == 0:
			return fmt.Sprintf("%dm", d/time.Minute)
		}
		return fmt.Sprint(int64(d / time.Second))
	}
	search(t, func(r *rand.Rand, n int) string {
		s := spare(r)
		w := clone(s)
		for k := 1 + r.Intn(5); k > 0; k-- {
			var ty rune
			var v, what string
			var got sdp.Session
			a, b := word(r, ""), word(r, "")
			i, j := anyInt(r), anyInt(r)
			switch r.Intn(18) {
			case 0:
				ty, v, what, got = 'é', a, "AddRaw", s.AddRaw('é', a)
			case 1:
				ty, v, what, got = 'q', a, "AddLine", s.AddLine('q', a)
			case 2:
				ty, v, what, got = 'v', strconv.Itoa(i), "AddVersion", s.AddVersion(i)
			case 3:
				ty, v, what, got = 'p', a, "AddPhone", s.AddPhone(a)
			case 4:
				ty, v, what, got = 'e', a, "AddEmail", s.AddEmail(a)
			case 5, 6:
				c := anyConn(r)
				c.TTL, c.Addresses = byte(r.Intn(256)*r.Intn(2)), byte(r.Intn(256)*r.Intn(2))
				at := "IP6"
				if c.IP.To4() != nil {
					at = "IP4"
				}
				v = def(c.NetworkType, "IN") + " " + def(c.AddressType, at) + " " + strings.ToUpper(c.IP.String())
				if c.TTL > 0 {
					v += fmt.Sprintf("/%d", c.TTL)
				}
				if c.Addresses > 0 {
					v += fmt.Sprintf("/%d", c.Addresses)
				}
				ty, what, got = 'c', "AddConnectionData", s.AddConnectionData(c)
			case 7:
				ip := anyIP(r)
				at := "IP6"
				if ip.To4() != nil {
					at = "IP4"
				}
				ty, v, what, got = 'c', "IN "+at+" "+strings.ToUpper(ip.String()), "AddConnectionDataIP", s.AddConnectionDataIP(ip)
			case 8:
				ty, v, what, got = 's', a, "AddSessionName", s.AddSessionName(a)
			case 9:
				ty, v, what, got = 'i', a, "AddSessionInfo", s.AddSessionInfo(a)
			case 10:
				ty, v, what, got = 'u', a, "AddURI", s.AddURI(a)
			case 11:
				o := sdp.Origin{Username: a, SessionID: i, SessionVersion: j, NetworkType: pick(r, "", b), AddressType: b, Address: word(r, "")}
				ty, v, what, got = 'o', fmt.Sprintf("%s %d %d %s %s %s", a, i, j, def(o.NetworkType, "IN"), b, o.Address), "AddOrigin", s.AddOrigin(o)
			case 12:
				x, y := anyStamp(r), anyStamp(r)
				ty, v, what, got = 't', fmt.Sprintf("%d %d", x, y), "AddTimingNTP", s.AddTimingNTP(x, y)
			case 13:
				var vs []string
				for q := r.Intn(4); q > 0; q-- {
					vs = append(vs, pick(r, "", word(r, "")))
				}
				v = a
				if len(vs) > 0 {
					v += ":" + strings.Join(vs, " ")
				}
				ty, what, got = 'a', "AddAttribute", s.AddAttribute(a, vs...)
			case 14:
				ty, v, what, got = 'b', a+":"+strconv.Itoa(i), "AddBandwidth", s.AddBandwidth(sdp.BandwidthType(a), i)
			case 15:
				x, y := anyDuration(r), anyDuration(r)
				var os []time.Duration
				for q := 1 + r.Intn(3); q > 0; q-- {
					os = append(os, anyDuration(r))
				}
				ty = 'r'
				if r.Intn(2) == 0 {
					v = fmt.Sprintf("%d %d", int64(x/time.Second), int64(y/time.Second))
					for _, o := range os {
						v += fmt.Sprintf(" %d", int64(o/time.Second))
					}
					what, got = "AddRepeatTimes", s.AddRepeatTimes(x, y, os...)
				} else {
					v = compact(x) + " " + compact(y)
					for _, o := range os {
						v += " " + compact(o)
					}
					what, got = "AddRepeatTimesCompact", s.AddRepeatTimesCompact(x, y, os...)
				}
			case 16:
				m := sdp.MediaDescription{Type: a, Port: i, Protocol: b, Format: word(r, "")}
				if r.Intn(2) == 0 {
					m.PortsNumber = j
				}
				v = fmt.Sprintf("%s %d", a, i)
				if m.PortsNumber != 0 {
					v += fmt.Sprintf("/%d", m.PortsNumber)
				}
				v += " " + b + " " + m.Format
				ty, what, got = 'm', "AddMediaDescription", s.AddMediaDescription(m)
			case 17:
				if r.Intn(2) == 0 {
					key := pick(r, "", b)
					v = a
					if key != "" {
						v += ":" + key
					}
					ty, what, got = 'k', "AddEncryption", s.AddEncryption(sdp.Encryption{Method: a, Key: key})
				} else {
					var zs []sdp.TimeZone
					for q := r.Intn(3); q > 0; q-- {
						x, d := anyStamp(r), anyDuration(r)
						zs = append(zs, sdp.TimeZone{Start: sdp.NTPToTime(x), Offset: d})
						v += fmt.Sprintf("%d %s ", x, compact(d))
					}
					v = strings.TrimSuffix(v, " ")
					ty, what, got = 'z', "AddTimeZones", s.AddTimeZones(zs...)
				}
			}
			trying("%s on %s (capacity %d)", what, lineStr(w), cap(s))
			if len(s) != len(w) || !sameLines(s, w) {
				return fmt.Sprintf("%s: the given session becomes %s", last, lineStr(s))
			}
			nw := append(clone(w), sdp.Line{Type: sdp.Type(ty), Value: []byte(v)})
			if !sameLines(got, nw) {
				return fmt.Sprintf("%s: gives %s, want %s", last, lineStr(got), lineStr(nw))
			}
			s, w = got, nw
		}
		return ""
	})
}

// anyAttrs is a set of attributes; the flags have empty values.
func anyAttrs(r *rand.Rand) sdp.Attributes {
	if r.Intn(5) == 0 {
		return nil
	}
	a := sdp.Attributes{}
	for k := r.Intn(4); k > 0; k-- {
		key := word(r, "")
		for q := r.Intn(4); q > 0; q-- {
			a[key] = append(a[key], pick(r, "", word(r, "")))
		}
	}
	return a
}

func anyEncryption(r *rand.Rand) sdp.Encryption {
	return sdp.Encryption{Method: pick(r, "", word(r, "")), Key: pick(r, "", word(r, ""))}
}

func some(r *rand.Rand) string { return pick(r, "", word(r, "")) }

func someConn(r *rand.Rand) (c sdp.ConnectionData) {
	if r.Intn(3) == 0 {
		return c
	}
	return anyConn(r)
}

type ref struct {
	s     sdp.Session
	group []int // lines of the same group > 0 can be in any order of their keys
	n     int
}

func (w *ref) add(ty rune, v string) {
	w.s = append(w.s, sdp.Line{Type: sdp.Type(ty), Value: []byte(v)})
	w.group = append(w.group, 0)
}

func (w *ref) conn(c sdp.ConnectionData) {
	if reflect.DeepEqual(c, sdp.ConnectionData{}) {
		return
	}
	at := "IP6"
	if c.IP.To4() != nil {
		at = "IP4"
	}
	v := def(c.NetworkType, "IN") + " " + def(c.AddressType, at) + " " + strings.ToUpper(c.IP.String())
	if c.TTL > 0 {
		v += fmt.Sprintf("/%d", c.TTL)
	}
	if c.Addresses > 0 {
		v += fmt.Sprintf("/%d", c.Addresses)
	}
	w.add('c', v)
}

func (w *ref) encryption(e sdp.Encryption) {
	if e.Method == "" && e.Key == "" {
		return
	}
	v := e.Method
	if e.Key != "" {
		v += ":" + e.Key
	}
	w.add('k', v)
}

func (w *ref) bandwidths(b map[sdp.BandwidthType]int) {
	w.n++
	for k, v := range b {
		w.add('b', string(k)+":"+strconv.Itoa(v))
		w.group[len(w.group)-1] = w.n
	}
}

func (w *ref) attributes(a sdp.Attributes) {
	w.n++
	for k, vs := range a {
		for _, v := range vs {
			if v != "" {
				v = ":" + v
			}
			w.add('a', k+v)
			w.group[len(w.group)-1] = w.n
		}
	}
}

// same compares the lines, taking a group as a bag (the order of a map is not known).
func (w *ref) same(s sdp.Session) bool {
	if len(s) != len(w.s) {
		return false
	}
	for i := 0; i < len(s); {
		j := i + 1
		for w.group[i] > 0 && j < len(s) && w.group[j] == w.group[i] {
			j++
		}
		left := map[string]int{}
		for k := i; k < j; k++ {
			left[lineStr(w.s[k:k+1])]++
			left[lineStr(s[k:k+1])]--
		}
		for _, n := range left {
			if n != 0 {
				return false
			}
		}
		i = j
	}
	return true
}

// inOrder checks that the values of every name come in their order.
func inOrder(s sdp.Session, a sdp.Attributes) bool {
	for k, vs := range a {
		clash := false
		for k2 := range a {
			clash = clash || k2 != k && (strings.HasPrefix(k2, k) || strings.HasPrefix(k, k2))
		}
		if clash {
			continue
		}
		i := 0
		for _, l := range s {
			if l.Type != 'a' || !(string(l.Value) == k || strings.HasPrefix(string(l.Value), k+":")) {
				continue
			}
			w := k
			if i < len(vs) && vs[i] != "" {
				w += ":" + vs[i]
			}
			if i >= len(vs) || string(l.Value) != w {
				return false
			}
			i++
		}
		if i != len(vs) {
			return false
		}
	}
	return true
}

func TestVerifC18(t *testing.T) {
	compact := func(d time.Duration) string {
		switch {
		case d == 0:
			return "0"
		case d%(24*time.Hour) == 0:
			return fmt.Sprintf("%dd", d/(24*time.Hour))
		case d%time.Hour == 0:
			return fmt.Sprintf("%dh", d/time.Hour)
		case d%time.Minute == 0:
			return fmt.Sprintf("%dm", d/time.Minute)
		}
		return fmt.Sprint(int64(d / time.Second))
	}
	search(t, func(r *rand.Rand, n int) string {
		if r.Intn(3) == 0 {
			return lookups(r)
		}
		m := &sdp.Message{Version: anyInt(r), Name: word(r, ""), Info: some(r), Email: some(r), Phone: some(r), URI: some(r),
			Origin:     sdp.Origin{Username: word(r, ""), SessionID: anyInt(r), SessionVersion: anyInt(r), NetworkType: some(r), AddressType: word(r, ""), Address: word(r, "")},
			Connection: someConn(r), Encryption: anyEncryption(r), Attributes: anyAttrs(r)}
		w := &ref{}
		w.add('v', strconv.Itoa(m.Version))
		w.add('o', fmt.Sprintf("%s %d %d %s %s %s", m.Origin.Username, m.Origin.SessionID, m.Origin.SessionVersion, def(m.Origin.NetworkType, "IN"), m.Origin.AddressType, m.Origin.Address))
		w.add('s', m.Name)
		for _, f := range []struct {
			t rune
			v string
		}{{'i', m.Info}, {'u', m.URI}, {'e', m.Email}, {'p', m.Phone}} {
			if f.v != "" {
				w.add(f.t, f.v)
			}
		}
		w.conn(m.Connection)
		if r.Intn(3) > 0 {
			m.Bandwidths = map[sdp.BandwidthType]int{}
			for k := r.Intn(4); k > 0; k-- {
				m.Bandwidths[sdp.BandwidthType(pick(r, "CT", "AS", word(r, "")))] = anyInt(r)
			}
		}
		w.bandwidths(m.Bandwidths)
		for k := r.Intn(4); k > 0; k-- {
			x, y := anyStamp(r), anyStamp(r)
			ti := sdp.Timing{Start: sdp.NTPToTime(x), End: sdp.NTPToTime(y), Repeat: anyDuration(r), Active: anyDuration(r)}
			w.add('t', fmt.Sprintf("%d %d", x, y))
			for q := r.Intn(3); q > 0; q-- {
				ti.Offsets = append(ti.Offsets, anyDuration(r))
			}
			if len(ti.Offsets) > 0 {
				v := compact(ti.Repeat) + " " + compact(ti.Active)
				for _, o := range ti.Offsets {
					v += " " + compact(o)
				}
				w.add('r', v)
			}
			m.Timing = append(m.Timing, ti)
		}
		zs := ""
		for q := r.Intn(3); q > 0; q-- {
			x, d := anyStamp(r), anyDuration(r)
			m.TZAdjustments = append(m.TZAdjustments, sdp.TimeZone{Start: sdp.NTPToTime(x), Offset: d})
			zs += fmt.Sprintf("%d %s ", x, compact(d))
		}
		if zs != "" {
			w.add('z', strings.TrimSuffix(zs, " "))
		}
		w.encryption(m.Encryption)
		w.attributes(m.Attributes)
		at := []int{len(w.s)}
		for k := r.Intn(4); k > 0; k-- {
			mm := sdp.Media{Title: some(r), Connection: someConn(r), Encryption: anyEncryption(r), Attributes: anyAttrs(r),
				Description: sdp.MediaDescription{Type: word(r, ""), Port: anyInt(r), Protocol: word(r, ""), Format: word(r, "")}}
			if r.Intn(2) == 0 {
				mm.Description.PortsNumber = anyInt(r)
			}
			if r.Intn(3) > 0 {
				mm.Bandwidths = sdp.Bandwidths{}
				for k := r.Intn(4); k > 0; k-- {
					mm.Bandwidths[sdp.BandwidthType(pick(r, "CT", "AS", word(r, "")))] = anyInt(r)
				}
			}
			d := mm.Description
			v := fmt.Sprintf("%s %d", d.Type, d.Port)
			if d.PortsNumber != 0 {
				v += fmt.Sprintf("/%d", d.PortsNumber)
			}
			w.add('m', v+" "+d.Protocol+" "+d.Format)
			if mm.Title != "" {
				w.add('i', mm.Title)
			}
			w.conn(mm.Connection)
			w.bandwidths(mm.Bandwidths)
			w.encryption(mm.Encryption)
			w.attributes(mm.Attributes)
			m.Medias = append(m.Medias, mm)
			at = append(at, len(w.s))
		}
		s := spare(r)
		before := clone(s)
		trying("the message %+v onto %s (capacity %d)", *m, lineStr(before), cap(s))
		got := m.Append(s)
		if !sameLines(s, before) {
			return fmt.Sprintf("%s: the given session becomes %s", last, lineStr(s))
		}
		if len(got) < len(before) || !sameLines(got[:len(before)], before) || !w.same(got[len(before):]) {
			return fmt.Sprintf("%s: gives %s, want (up to the order of names) %s after the given ones", last, lineStr(got), lineStr(w.s))
		}
		got = got[len(before):]
		if !inOrder(got[:at[0]], m.Attributes) {
			return fmt.Sprintf("%s: gives %s: values out of order", last, lineStr(got))
		}
		for i, mm := range m.Medias {
			if !inOrder(got[at[i]:at[i+1]], mm.Attributes) {
				return fmt.Sprintf("%s: gives %s: values out of order", last, lineStr(got))
			}
		}
		if len(m.Timing) > 0 && (!m.Start().Equal(m.Timing[0].Start) || !m.End().Equal(m.Timing[0].End)) || len(m.Timing) == 0 && (!m.Start().IsZero() || !m.End().IsZero()) {
			return fmt.Sprintf("%s: Start %v, End %v", last, m.Start(), m.End())
		}
		return ""
	})
}

// lookups adds attributes and looks them up.
func lookups(r *rand.Rand) string {
	m, media := &sdp.Message{}, &sdp.Media{}
	want := map[string][]string{}
	wantM := map[string][]string{}
	names := []string{"", word(r, ""), word(r, ""), word(r, "")}
	hist := ""
	for k := r.Intn(8); k > 0; k-- {
		name, v := names[r.Intn(4)], some(r)
		hist += fmt.Sprintf("%q %q; ", name, v)
		trying("the adding of %s", hist)
		switch r.Intn(4) {
		case 0:
			m.AddFlag(name)
			want[name] = append(want[name], "")
		case 1:
			m.AddAttribute(name, v)
			want[name] = append(want[name], v)
		case 2:
			media.AddFlag(name)
			wantM[name] = append(wantM[name], "")
		case 3:
			vs := []string{}
			for q := r.Intn(4); q > 0; q-- {
				vs = append(vs, some(r))
			}
			hist += fmt.Sprintf("(%q) ", vs)
			media.AddAttribute(name, vs...)
			wantM[name] = append(wantM[name], strings.Join(vs, " "))
		}
	}
	for _, name := range names {
		for _, x := range []struct {
			what  string
			want  []string
			first string
			flag  bool
			vals  []string
			f2    string
			fl2   bool
		}{
			{"message", want[name], m.Attribute(name), m.Flag(name), m.Attributes.Values(name), m.Attributes.Value(name), m.Attributes.Flag(name)},
			{"media", wantM[name], media.Attribute(name), media.Flag(name), media.Attributes.Values(name), media.Attributes.Value(name), media.Attributes.Flag(name)},
		} {
			first := ""
			if len(x.want) > 0 {
				first = x.want[0]
			}
			if x.first != first || x.f2 != first || x.flag != (len(x.want) > 0) || x.fl2 != x.flag || len(x.vals) != len(x.want) || len(x.want) > 0 && !reflect.DeepEqual(x.vals, x.want) {
				return fmt.Sprintf("after %s: the %s gives for %q: first %q and %q, flag %v and %v, values %q; want %q", hist, x.what, name, x.first, x.f2, x.flag, x.fl2, x.vals, x.want)
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C25

// sameIP: equal bytes, an IPv4 address in its short or its long form
func sameIP(a, b net.IP) bool {
	long := func(x net.IP) string {
		if len(x) == 4 {
			return "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff" + string(x)
		}
		return string(x)
	}
	return long(a) == long(b)
}

func TestVerifC25(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		c := anyConn(r)
		d := c
		d.IP = append(net.IP(nil), c.IP...)
		switch r.Intn(8) {
		case 0:
			d.NetworkType = some(r)
		case 1:
			d.AddressType = some(r)
		case 2:
			d.IP = anyIP(r)
		case 3:
			d.TTL = byte(r.Intn(256))
		case 4:
			d.Addresses = byte(r.Intn(256))
		case 5:
			if x := c.IP.To4(); x != nil && len(c.IP) == 16 {
				d.IP = x
			} else if x := c.IP.To16(); x != nil {
				d.IP = x
			}
		case 6:
			if len(d.IP) > 0 {
				d.IP[r.Intn(len(d.IP))] ^= 1
			}
		}
		current("ConnectionData %#v.Equal(%#v)", c, d)
		if want := c.NetworkType == d.NetworkType && c.AddressType == d.AddressType && sameIP(c.IP, d.IP) && c.TTL == d.TTL && c.Addresses == d.Addresses; c.Equal(d) != want {
			return fmt.Sprintf("%#v.Equal(%#v) = %v", c, d, !want)
		}
		current("ConnectionData %#v printed", c)
		if len(c.IP) == 4 || len(c.IP) == 16 {
			e := c
			e.NetworkType, e.AddressType = "N", "A"
			s := sdp.Session{}.AddConnectionData(e)
			if got := e.String(); got != string(s[0].Value) || got != "N A "+c.ConnectionAddress() {
				return fmt.Sprintf("%#v prints as %q, address %q, is encoded as %q", e, got, c.ConnectionAddress(), s[0].Value)
			}
		}
		num := func() int { return r.Intn(4) - 1 }
		o := sdp.Origin{Username: some(r), SessionID: num(), SessionVersion: num(), NetworkType: some(r), AddressType: some(r), Address: some(r)}
		q := o
		switch r.Intn(7) {
		case 0:
			q.Username = some(r)
		case 1:
			q.SessionID = num()
		case 2:
			q.SessionVersion = num()
		case 3:
			q.NetworkType = some(r)
		case 4:
			q.AddressType = some(r)
		case 5:
			q.Address = some(r)
		}
		current("Origin %#v.Equal(%#v)", o, q)
		if o.Equal(q) != (o == q) {
			return fmt.Sprintf("%#v.Equal(%#v) = %v", o, q, o != q)
		}
		e, f := anyEncryption(r), anyEncryption(r)
		if r.Intn(2) == 0 {
			f.Method = e.Method
		}
		if e.Equal(f) != (e == f) {
			return fmt.Sprintf("%#v.Equal(%#v) = %v", e, f, e != f)
		}
		s := randSession(r)
		b := clone(s)
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b = b[:len(b)-1]
			}
		case 1:
			b = append(b, sdp.Line{Type: 'a'})
		case 2:
			if len(b) > 0 {
				b[r.Intn(len(b))].Type++
			}
		case 3:
			if k := r.Intn(len(b) + 1); k < len(b) {
				b[k].Value = append(b[k].Value, 'x')
			}
		}
		current("Session %q.Equal(%q)", s, b)
		same := len(s) == len(b)
		for i := 0; same && i < len(s); i++ {
			same = s[i].Type == b[i].Type && string(s[i].Value) == string(b[i].Value)
			if l := s[i].Equal(b[i]); l != same {
				return fmt.Sprintf("Line %#v.Equal(%#v) = %v", s[i], b[i], l)
			}
		}
		if s.Equal(b) != same || b.Equal(s) != same {
			return fmt.Sprintf("%#v.Equal(%#v) = %v", s, b, !same)
		}
		for ty, name := range map[sdp.Type]string{'a': "attribute", 'p': "phone", 'e': "email", 'c': "connection data", 'u': "uri", 's': "session name", 'o': "origin", 'v': "version",
			't': "timing", 'b': "bandwidth", 'i': "session info", 'r': "repeat times", 'z': "time zones", 'k': "encryption keys", 'm': "media description"} {
			if got := ty.String(); got != name {
				return fmt.Sprintf("type %q prints as %q", rune(ty), got)
			}
		}
		return ""
	})
}

package rtspclient_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	rtspclient "github.com/NodeBoy2/rtspclient"
)

// ---------------------------------------------------------------- oracle: RFC 6184, RFC 7798, reassembly

const maxHeld = 8 << 20

type chanModel struct {
	codec string
	held  []byte
}

type unitT struct {
	data []byte
	done bool
}

func agg(q []byte, hdr int) [][]byte {
	var r [][]byte
	for len(q) > 0 {
		if len(q) < hdr {
			r = append(r, nil)
			break
		}
		n := hdr + int(q[0])<<8 + int(q[1])
		if n > len(q) {
			n = len(q)
		}
		r = append(r, q[hdr:n])
		q = q[n:]
	}
	return r
}

func unitsOf(codec string, rtp []byte) []unitT {
	if len(rtp) < 12 {
		return nil
	}
	p := append([]byte{}, rtp[12:]...)
	if len(p) == 0 {
		return nil
	}
	var us [][]byte
	done := true
	switch codec {
	case "H264":
		switch p[0] & 31 {
		case 24:
			us = agg(p[1:], 2)
		case 25, 26, 27:
			if len(p) < 3 {
				return nil
			}
			us = agg(p[3:], map[byte]int{25: 2, 26: 5, 27: 6}[p[0]&31])
		case 28, 29:
			if len(p) < 2 {
				return nil
			}
			done = p[1]&64 != 0
			u := p[2:]
			if p[1]&128 != 0 {
				u = append([]byte{p[0]&224 | p[1]&31}, u...)
			}
			if len(u) > 0 {
				us = [][]byte{u}
			}
		default:
			us = [][]byte{p}
		}
	case "H265", "HEVC":
		if len(p) < 2 {
			us, done = [][]byte{p}, false
			break
		}
		switch p[0] >> 1 & 63 {
		case 48:
			us = agg(p[2:], 2)
		case 49:
			if len(p) < 3 {
				return nil
			}
			done = p[2]&64 != 0
			u := p[3:]
			if p[2]&128 != 0 {
				u = append([]byte{p[0]&129 | p[2]&63<<1, p[1]}, u...)
			}
			if len(u) > 0 {
				us = [][]byte{u}
			}
		default:
			us = [][]byte{p}
		}
	case "bbw":
		us, done = [][]byte{p}, rtp[1]&128 != 0
	default:
		us = [][]byte{p}
	}
	var r []unitT
	for _, u := range us {
		r = append(r, unitT{u, done})
	}
	return r
}

func (m *chanModel) push(rtp []byte) [][]byte {
	var out [][]byte
	for _, u := range unitsOf(m.codec, rtp) {
		if len(m.held)+len(u.data) > maxHeld {
			out = append(out, m.held)
			m.held = append([]byte{}, u.data...)
			continue
		}
		m.held = append(m.held, u.data...)
		if u.done {
			out = append(out, m.held)
			m.held = nil
		}
	}
	return out
}

func genPacket(r *rand.Rand, codec string) []byte {
	var n int
	switch r.Intn(12) {
	case 0:
		n = r.Intn(6)
	case 1:
		n = 200 + r.Intn(1500)
	case 2:
		if r.Intn(12) == 0 {
			n = 60000 + r.Intn(65524-60000)
			break
		}
		n = 3
	default:
		n = 1 + r.Intn(40)
	}
	h := randBytes(r, 12)
	p := randBytes(r, n)
	if codec == "H264" && n > 0 {
		t := byte(r.Intn(32))
		if r.Intn(3) > 0 {
			t = []byte{1, 5, 24, 25, 26, 27, 28, 28, 29, 30, 0, 23}[r.Intn(12)]
		}
		p[0] = p[0]&224 | t
		if t >= 24 && t <= 27 && r.Intn(3) > 0 {
			q := append([]byte{}, p[:1]...)
			if t != 24 {
				q = append(q, 7, 8)
			}
			for k := r.Intn(4); k >= 0; k-- {
				m := r.Intn(20)
				if r.Intn(10) == 0 {
					m = 250 + r.Intn(20)
				}
				q = append(q, byte(m>>8), byte(m))
				q = append(q, randBytes(r, map[byte]int{24: 0, 25: 0, 26: 3, 27: 4}[t])...)
				q = append(q, randBytes(r, m)...)
			}
			if r.Intn(4) == 0 {
				q = q[:1+r.Intn(len(q))]
			}
			if r.Intn(4) == 0 {
				q = append(q, randBytes(r, r.Intn(4))...)
			}
			p = q
		}
	}
	if (codec == "H265" || codec == "HEVC") && n > 0 {
		t := byte(r.Intn(64))
		if r.Intn(3) > 0 {
			t = []byte{1, 19, 48, 48, 49, 49, 50, 32}[r.Intn(8)]
		}
		p[0] = p[0]&129 | t<<1
		if t == 48 && r.Intn(3) > 0 && n > 1 {
			q := append([]byte{}, p[:2]...)
			for k := r.Intn(4); k >= 0; k-- {
				m := r.Intn(20)
				if r.Intn(10) == 0 {
					m = 250 + r.Intn(20)
				}
				q = append(q, byte(m>>8), byte(m))
				q = append(q, randBytes(r, m)...)
			}
			if r.Intn(4) == 0 {
				q = q[:2+r.Intn(len(q)-1)]
			}
			p = q
		}
	}
	if len(p) > 65523 {
		p = p[:65523]
	}
	return append(h, p...)
}

// fill returns packets that hold almost 8 MiB.
func fill(r *rand.Rand, codec string) [][]byte {
	var res [][]byte
	left := maxHeld - r.Intn(200)
	for left > 0 {
		n := 65000
		if n > left {
			n = left
		}
		left -= n
		h := make([]byte, 12)
		body := bytes.Repeat([]byte{byte(r.Intn(256))}, n)
		switch codec {
		case "H264":
			res = append(res, append(append(h, 0x7c, 5), body...))
		case "H265", "HEVC":
			res = append(res, append(append(h, 98, 1, 19), body...))
		default:
			res = append(res, append(h, body...))
		}
	}
	return res
}

type rtpOpts struct {
	codecs  []string
	fill    bool
	foreign bool // other channels, short packets
	alias   bool
}

func rtpCase(r *rand.Rand, o rtpOpts) string {
	nm := 1 + r.Intn(2)
	var ms []media
	var model []*chanModel
	for i := 0; i < nm; i++ {
		cd := o.codecs[r.Intn(len(o.codecs))]
		ms = append(ms, media{"video", cd, fmt.Sprint("t", i), 90000})
		model = append(model, &chanModel{codec: cd})
	}
	ms = append(ms, media{"audio", "SENTINEL", "s", 8000})
	c, err := connect(ms)
	if err != nil {
		return fmt.Sprintf("the handshake with medias %v failed: %v", ms, err)
	}
	defer c.stop()
	type exp struct {
		ch   int
		data []byte
	}
	var want []exp
	var sent [][]byte
	send := func(ch int, p []byte) {
		sent = append(sent, frame(ch, p))
		if ch%2 == 0 && ch/2 < nm {
			for _, d := range model[ch/2].push(p) {
				want = append(want, exp{ch, d})
			}
		}
	}
	if o.fill {
		k := r.Intn(nm)
		for _, p := range fill(r, ms[k].codec) {
			send(2*k, p)
		}
		for i := 0; i < 6; i++ {
			send(2*k, genPacket(r, ms[k].codec))
		}
	}
	n := 1 + r.Intn(60)
	for i := 0; i < n; i++ {
		ch := 2 * r.Intn(nm)
		p := genPacket(r, ms[ch/2].codec)
		if o.foreign {
			switch r.Intn(8) {
			case 0:
				ch = []int{1, 3, 2*nm + 1, 2*nm + 2, 17, 128, 255}[r.Intn(7)]
			case 1:
				p = p[:r.Intn(13)]
			}
		}
		send(ch, p)
	}
	sentinel := []byte(fmt.Sprintf("0123456789ab-end-%d", r.Int()))
	send(2*nm, sentinel)
	want = append(want, exp{2 * nm, sentinel[12:]})
	go func() {
		for _, f := range sent {
			if r.Intn(3) == 0 && len(f) < 3000 {
				writeSplit(r, c.srv.conn, f)
			} else if _, err := c.srv.conn.Write(f); err != nil {
				return
			}
		}
	}()
	show := func() string {
		s := ""
		for i, f := range sent {
			if len(sent) > 70 && i < len(sent)-70 {
				continue
			}
			if len(f) > 120 {
				s += fmt.Sprintf(" %x..(%d bytes)", f[:120], len(f))
			} else {
				s += fmt.Sprintf(" %x", f)
			}
		}
		return fmt.Sprintf("medias %v, interleaved frames (of %d):%s", ms, len(sent), s)
	}
	ok := c.waitFor(func() bool {
		return len(c.got) > 0 && c.got[len(c.got)-1].ch == 2*nm && bytes.Equal(c.got[len(c.got)-1].data, sentinel[12:]) || len(c.events) > 1
	})
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.events) > 1 {
		ok = false
	}
	for i, g := range c.got {
		if i >= len(want) {
			return fmt.Sprintf("%s: delivery %d (channel %d, %d bytes %.80x) too many", show(), i, g.ch, len(g.data), g.data)
		}
		if g.ch != want[i].ch || !bytes.Equal(g.data, want[i].data) {
			return fmt.Sprintf("%s: delivery %d is channel %d, %d bytes %.80x; expected channel %d, %d bytes %.80x", show(), i, g.ch, len(g.data), g.data, want[i].ch, len(want[i].data), want[i].data)
		}
		if g.s != c.s {
			return fmt.Sprintf("%s: delivery %d is labelled with another session", show(), i)
		}
	}
	if !ok || len(c.got) != len(want) {
		return fmt.Sprintf("%s: %d deliveries, %d expected", show(), len(c.got), len(want))
	}
	if o.alias {
		for i, g := range c.got {
			if !bytes.Equal(g.ref, g.data) {
				return fmt.Sprintf("%s: delivery %d was changed after it was delivered", show(), i)
			}
		}
		// delivered slices do not overlap
		for i := range c.got {
			for j := range c.got[i].ref {
				c.got[i].ref[j] ^= 0x5a
			}
			for k := range c.got {
				if k > i && !bytes.Equal(c.got[k].ref, c.got[k].data) {
					return fmt.Sprintf("%s: deliveries %d and %d share memory", show(), i, k)
				}
			}
		}
	}
	return ""
}

func TestVerifC03(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string { return rtpCase(r, rtpOpts{codecs: []string{"H264"}}) })
}
func TestVerifC04(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string { return rtpCase(r, rtpOpts{codecs: []string{"H265", "HEVC"}}) })
}
func TestVerifC05(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		return rtpCase(r, rtpOpts{codecs: []string{"H264", "H265", "bbw", "PCM"}, fill: n%5 == 0, alias: true, foreign: true})
	})
}
func TestVerifC06(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		return rtpCase(r, rtpOpts{codecs: []string{"H264", "H265", "HEVC", "bbw", "PCM", "h264", "BBW", "H266", "H26", "H2645"}, foreign: true})
	})
}

var _ = rtspclient.RtspEventNone

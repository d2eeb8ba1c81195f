package rtspclient

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

// clocked is a network connection that serves given pieces of a stream and notes the limit in force at every read.
type clocked struct {
	mu     sync.Mutex
	pieces [][]byte
	limit  time.Duration // -1: none
	reads  []time.Duration
	sets   int
	over   chan bool
	once   sync.Once
}

func (c *clocked) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads = append(c.reads, c.limit)
	if len(c.pieces) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.pieces[0])
	if c.pieces[0] = c.pieces[0][n:]; len(c.pieces[0]) == 0 {
		c.pieces = c.pieces[1:]
	}
	return n, nil
}
func (c *clocked) Write(p []byte) (int, error) { return len(p), nil }
func (c *clocked) Close() error                { c.once.Do(func() { close(c.over) }); return nil }
func (c *clocked) LocalAddr() net.Addr         { return nil }
func (c *clocked) RemoteAddr() net.Addr        { return nil }
func (c *clocked) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *clocked) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sets++
	if c.limit = -1; !t.IsZero() {
		c.limit = time.Until(t)
	}
	return nil
}
func (c *clocked) SetWriteDeadline(t time.Time) error { return nil }

func TestVerifC26(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		c := &clocked{limit: -1, over: make(chan bool)}
		var stream []byte
		count := 1 + r.Intn(4)
		for i := 0; i < count; i++ {
			body := strings.Repeat("z", r.Intn(30))
			if r.Intn(2) == 0 {
				stream = append(stream, frame(body)...)
			} else {
				stream = append(stream, fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: %d\r\n\r\n%s", len(body), body)...)
			}
		}
		for all := stream; len(all) > 0; {
			k := 1 + r.Intn(60)
			if k > len(all) {
				k = len(all)
			}
			c.pieces = append(c.pieces, append([]byte(nil), all[:k]...))
			all = all[k:]
		}
		sec := r.Intn(4)
		if sec > 0 {
			sec = 100 * (1 + r.Intn(1000))
		}
		var after []time.Duration
		end := make(chan bool)
		k := tcpnetwork.NewConnection(c, 10, func(e *tcpnetwork.ConnEvent) {
			if e.EventType == tcpnetwork.ConnEventData {
				c.mu.Lock()
				after = append(after, c.limit)
				c.mu.Unlock()
			}
			if e.EventType == tcpnetwork.ConnEventDisconnected {
				close(end)
			}
		})
		if k.GetReadTimeoutSec() != 0 {
			return fmt.Sprintf("a new connection has a read timeout of %d s", k.GetReadTimeoutSec())
		}
		if sec > 0 {
			k.SetReadTimeoutSec(sec)
		}
		if k.GetReadTimeoutSec() != sec {
			return fmt.Sprintf("read timeout set to %d, got %d", sec, k.GetReadTimeoutSec())
		}
		current("read timeout %d s, stream %q in %d pieces", sec, stream, len(c.pieces))
		k.SetStreamProtocol(&RTPStreamProtocol{})
		k.Run()
		select {
		case <-end:
		case <-time.After(20 * time.Second):
			return ""
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		want := time.Duration(sec) * time.Second
		for i, d := range c.reads {
			if sec == 0 && d != -1 || sec > 0 && (d > want || d < want-30*time.Second) {
				return fmt.Sprintf("read timeout %d s: read %d of the stream %q may wait %v", sec, i, stream, d)
			}
		}
		if len(after) != count {
			return ""
		}
		for i, d := range after {
			if d != -1 {
				return fmt.Sprintf("read timeout %d s: after message %d of the stream %q a limit of %v is left", sec, i, stream, d)
			}
		}
		return ""
	})
}

package tcpnetwork_test

// Replay harness for C21: looks for an input that shows a violation after a proof obligation failed.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() { log.SetOutput(io.Discard) }

func budget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 20
	}
	return time.Duration(n) * time.Second
}

func current(format string, a ...interface{}) {
	if f := os.Getenv("VERIF_CASE"); f != "" {
		os.WriteFile(f, []byte(fmt.Sprintf(format, a...)+"\n"), 0644)
	}
}

func search(t *testing.T, f func(r *rand.Rand, n int) string) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	end := time.Now().Add(budget())
	n := 0
	for ; time.Now().Before(end); n++ {
		sd := seed*1000003 + int64(n)
		if m := f(rand.New(rand.NewSource(sd)), n); m != "" {
			if m2 := f(rand.New(rand.NewSource(sd)), n); m2 != "" {
				if len(m2) > 6000 {
					m2 = m2[:6000] + "..."
				}
				fmt.Printf("FAILING-INPUT case %d seed %d: %s\n", n, sd, m2)
				t.Fatal("violated")
			}
		}
	}
	fmt.Printf("CASES %d\n", n)
}

// conn stands for the network: what is written is collected, reads wait until it is closed.
type conn struct {
	mu     sync.Mutex
	b      bytes.Buffer
	closes int
	limit  int // writes fail beyond this many bytes
	gate   chan bool
	over   chan bool
}

func (c *conn) Read(p []byte) (int, error) { <-c.over; return 0, io.EOF }
func (c *conn) Write(p []byte) (int, error) {
	if c.gate != nil {
		select {
		case <-c.gate:
		case <-c.over:
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len()+len(p) > c.limit {
		n := c.limit - c.b.Len()
		c.b.Write(p[:n])
		return n, errors.New("network is down")
	}
	return c.b.Write(p)
}
func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closes == 1 {
		close(c.over)
	}
	return nil
}
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return nil }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func (c *conn) state() (string, int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.b.String(), c.closes
}

// proto puts a header before every message whose first byte is even.
type proto struct{}

func (proto) Init()                                    {}
func (proto) GetHeaderLength() int                     { return 4 }
func (proto) UnserializeHeader(b []byte) (int, []byte) { return 0, nil }
func (proto) GetContentLength(b []byte) int            { return 0 }
func header(b []byte) []byte {
	if len(b) > 0 && b[0]%2 == 0 {
		return []byte{'<', byte(len(b)), byte(len(b) >> 8), b[0], '>'}
	}
	return nil
}
func (proto) SerializeHeader(b []byte) []byte { return header(b) }

func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}

func TestVerifC21(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		k := &conn{over: make(chan bool), limit: 1 << 30}
		if r.Intn(6) == 0 {
			k.limit = r.Intn(200)
		}
		defer k.Close()
		held := k.limit == 1<<30 && r.Intn(3) == 0
		if held {
			k.gate = make(chan bool)
		}
		var mu sync.Mutex
		var events []int
		closesAtEnd := -1
		told := make(chan bool, 10)
		c := tcpnetwork.NewConnection(k, 64, func(e *tcpnetwork.ConnEvent) {
			_, cl := k.state()
			mu.Lock()
			defer mu.Unlock()
			events = append(events, e.EventType)
			if e.EventType == tcpnetwork.ConnEventDisconnected {
				closesAtEnd = cl
				told <- true
			}
		})
		var log string
		bad := ""
		note := func(f string, a ...interface{}) { log += fmt.Sprintf(f, a...) + "; " }
		fail := func(f string, a ...interface{}) {
			if bad == "" {
				bad = log + fmt.Sprintf(f, a...)
			}
		}
		noproto := r.Intn(20) == 0
		if !noproto {
			c.SetStreamProtocol(proto{})
		} else {
			note("no stream protocol")
		}
		// before it runs nothing is taken
		if r.Intn(2) == 0 {
			note("Send and Close before Run")
			c.Send([]byte("early"), r.Intn(2) == 0)
			c.Close()
			if c.GetStatus() != tcpnetwork.ConnStatusNone {
				fail("status %d before Run", c.GetStatus())
			}
			if _, cl := k.state(); cl != 0 {
				fail("closed before Run")
			}
		}
		c.Run()
		if noproto {
			select {
			case <-told:
			case <-time.After(5 * time.Second):
				return log + "no disconnected event"
			}
			if _, cl := k.state(); cl != 1 || c.GetStatus() != tcpnetwork.ConnStatusDisconnected {
				fail("closed %d times, status %d", cl, c.GetStatus())
			}
			return bad
		}
		if s := c.GetStatus(); s != tcpnetwork.ConnStatusConnected {
			fail("status %d right after Run", s)
		}
		want := ""
		for i := r.Intn(12); i > 0; i-- {
			m := make([]byte, r.Intn(60))
			r.Read(m)
			cp := r.Intn(2) == 0
			note("Send(%x, %v)", m, cp)
			current("%s", log)
			c.Send(m, cp)
			want += string(header(m)) + string(m)
			if cp {
				// the caller may reuse its buffer
				for j := range m {
					m[j] ^= 0xff
				}
			}
		}
		note("network accepts %d bytes", k.limit)
		if held {
			// everything, the close included, is queued before the network takes the first byte
			note("Close")
			current("%s", log)
			c.Close()
			close(k.gate)
			select {
			case <-told:
			case <-time.After(5 * time.Second):
				fail("no disconnected event")
			}
			if s, cl := k.state(); s != want || cl != 1 {
				fail("written %x, expected %x; closed %d times", s, want, cl)
			}
			return bad
		}
		if k.limit >= len(want) {
			eventually(2*time.Second, func() bool { s, _ := k.state(); return len(s) >= len(want) })
			s, cl := k.state()
			if s != want {
				fail("written %x, expected %x", s, want)
			}
			if cl != 0 {
				fail("closed %d times although nobody closed it", cl)
			}
		} else {
			eventually(2*time.Second, func() bool { s, _ := k.state(); return len(s) >= k.limit })
			time.Sleep(time.Millisecond)
			if s, _ := k.state(); s != want[:k.limit] {
				fail("written %x, expected the beginning of %x", s, want)
			}
			return bad
		}
		how := r.Intn(3)
		note("end in way %d", how)
		current("%s", log)
		switch how {
		case 0:
			c.Close()
		case 1:
			c.Send(nil, false)
		case 2:
			k.Close() // the far side is gone; the connection still has to close its own
		}
		select {
		case <-told:
		case <-time.After(5 * time.Second):
			fail("no disconnected event")
			return bad
		}
		_, cl := k.state()
		base := 0
		if how == 2 {
			base = 1
		}
		mu.Lock()
		if closesAtEnd != base+1 {
			fail("closed %d times when the disconnection was reported", closesAtEnd-base)
		}
		ev := append([]int{}, events...)
		mu.Unlock()
		if cl != base+1 {
			fail("closed %d times", cl-base)
		}
		if s := c.GetStatus(); s != tcpnetwork.ConnStatusDisconnected {
			fail("status %d afterwards", s)
		}
		if fmt.Sprint(ev) != fmt.Sprint([]int{tcpnetwork.ConnEventConnected, tcpnetwork.ConnEventDisconnected}) {
			fail("events %v", ev)
		}
		c.Send([]byte("late"), false)
		c.Close()
		time.Sleep(200 * time.Microsecond)
		if s, cl := k.state(); s != want || cl != base+1 {
			fail("written %x, closed %d times after the end", s, cl-base)
		}
		return bad
	})
}

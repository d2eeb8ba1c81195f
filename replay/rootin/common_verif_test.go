package rtspclient

// Replay harness inside the package: looks for an input that shows a violation after a proof obligation failed.

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() { log.SetOutput(io.Discard) }

func budget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 20
	}
	return time.Duration(n) * time.Second
}

func current(format string, a ...interface{}) {
	if f := os.Getenv("VERIF_CASE"); f != "" {
		os.WriteFile(f, []byte(fmt.Sprintf(format, a...)+"\n"), 0644)
	}
}

func search(t *testing.T, f func(r *rand.Rand, n int) string) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	end := time.Now().Add(budget())
	maxN := 1 << 30
	if s, err := strconv.Atoi(os.Getenv("VERIF_MAXCASES")); err == nil {
		maxN = s
	}
	n := 0
	for ; n < maxN && time.Now().Before(end); n++ {
		sd := seed*1000003 + int64(n)
		if m := f(rand.New(rand.NewSource(sd)), n); m != "" {
			if m2 := f(rand.New(rand.NewSource(sd)), n); m2 != "" {
				if len(m2) > 6000 {
					m2 = m2[:6000] + "..."
				}
				fmt.Printf("FAILING-INPUT case %d seed %d: %s\n", n, sd, m2)
				t.Fatal("violated")
			}
		}
	}
	fmt.Printf("CASES %d\n", n)
}

// wire is a session on a running connection; everything it writes is collected.
type wire struct {
	s    *RtspClientSession
	c    *tcpnetwork.Connection
	far  net.Conn
	mu   sync.Mutex
	b    bytes.Buffer
	eof  bool
	done chan bool
}

func newWire() *wire {
	w := &wire{done: make(chan bool)}
	w.s = NewRtspClientSession(func(*RtspData) {}, func(*RtspEvent) {})
	a, b := net.Pipe()
	w.far = b
	w.c = tcpnetwork.NewConnection(a, 100, func(*tcpnetwork.ConnEvent) {})
	w.c.SetStreamProtocol(&RTPStreamProtocol{})
	w.c.Run()
	w.s.tcpConn = w.c
	go func() {
		p := make([]byte, 4096)
		for {
			n, err := b.Read(p)
			w.mu.Lock()
			w.b.Write(p[:n])
			if err != nil {
				w.eof = true
			}
			w.mu.Unlock()
			if err != nil {
				close(w.done)
				return
			}
		}
	}()
	return w
}

func (w *wire) text() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.b.String()
}
func (w *wire) closed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.eof
}

func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

package rtspclient

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

func TestVerifC22(t *testing.T) {
	conns := make(chan *websocket.Conn, 1)
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		c, err := up.Upgrade(w, q, nil)
		if err == nil {
			conns <- c
		}
	}))
	defer srv.Close()
	search(t, func(r *rand.Rand, n int) string {
		cl, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
		if err != nil {
			return ""
		}
		far := <-conns
		defer far.Close()
		defer cl.Close()
		c := &WebsocketConn{conn: cl}
		if c.LocalAddr() == nil || c.RemoteAddr() == nil || c.LocalAddr().String() != cl.LocalAddr().String() || c.RemoteAddr().String() != cl.RemoteAddr().String() {
			return fmt.Sprintf("addresses %v %v, underlying %v %v", c.LocalAddr(), c.RemoteAddr(), cl.LocalAddr(), cl.RemoteAddr())
		}
		if n%10 == 9 {
			past := time.Now().Add(-time.Second)
			k := r.Intn(3)
			switch k {
			case 0:
				err = c.SetDeadline(past)
			case 1:
				err = c.SetReadDeadline(past)
			case 2:
				err = c.SetWriteDeadline(past)
			}
			if err != nil {
				return fmt.Sprintf("deadline kind %d: %v", k, err)
			}
			if k != 1 {
				if m, err := c.Write([]byte("x")); err == nil || m != 0 {
					return fmt.Sprintf("deadline kind %d: a write after the deadline gave %d, %v", k, m, err)
				}
			}
			if k != 2 {
				d := make(chan error, 1)
				go func() { _, err := c.Read(make([]byte, 4)); d <- err }()
				select {
				case err := <-d:
					if err == nil {
						return fmt.Sprintf("deadline kind %d: a read after the deadline succeeded", k)
					}
				case <-time.After(3 * time.Second):
					return fmt.Sprintf("deadline kind %d: a read after the deadline blocks", k)
				}
			}
			return ""
		}
		if n%10 == 4 {
			d := make(chan error, 1)
			go func() { _, err := c.Read(make([]byte, 4)); d <- err }()
			kind := make(chan int, 1)
			go func() {
				far.SetCloseHandler(func(int, string) error { kind <- websocket.CloseMessage; return nil })
				far.ReadMessage()
				kind <- 0
			}()
			current("Close")
			if err := c.Close(); err != nil {
				return fmt.Sprintf("Close: %v", err)
			}
			select {
			case err := <-d:
				if err == nil {
					return "a read succeeded on a closed connection"
				}
			case <-time.After(5 * time.Second):
				return "a read blocks on after the connection was closed"
			}
			select {
			case k := <-kind:
				if k != websocket.CloseMessage {
					return "the other side was told nothing"
				}
			case <-time.After(5 * time.Second):
				return "the other side was told nothing in 5 s"
			}
			return ""
		}
		var msgs [][]byte
		var all []byte
		for i := 1 + r.Intn(4); i > 0; i-- {
			m := make([]byte, []int{0, 1, 3, r.Intn(40), r.Intn(5000)}[r.Intn(5)])
			r.Read(m)
			msgs = append(msgs, m)
			all = append(all, m...)
		}
		size := []int{1, 2, 7, 64, 5000}[r.Intn(5)]
		desc := ""
		for _, m := range msgs {
			desc += fmt.Sprint(len(m), " ")
		}
		current("messages of %s bytes, buffer of %d", desc, size)
		go func() {
			for _, m := range msgs {
				far.WriteMessage(websocket.BinaryMessage, m)
			}
		}()
		cl.SetReadDeadline(time.Now().Add(10 * time.Second))
		var got []byte
		for len(got) < len(all) {
			back := bytes.Repeat([]byte{0xEE}, size+8)
			b := back[:size:size]
			m, err := c.Read(b)
			if err != nil {
				return fmt.Sprintf("messages of %s bytes, buffer of %d: after %d bytes: %v", desc, size, len(got), err)
			}
			if m < 0 || m > size {
				return fmt.Sprintf("messages of %s bytes, buffer of %d: read returned %d", desc, size, m)
			}
			got = append(got, b[:m]...)
			if !bytes.Equal(back[size:], bytes.Repeat([]byte{0xEE}, 8)) {
				return "memory behind the buffer was written"
			}
		}
		if !bytes.Equal(got, all) {
			return fmt.Sprintf("messages %q, buffer of %d: read %.500q", msgs, size, got)
		}
		out := make([]byte, r.Intn(3000))
		r.Read(out)
		m, err := c.Write(out)
		far.SetReadDeadline(time.Now().Add(5 * time.Second))
		kind, back, err2 := far.ReadMessage()
		if err != nil || m != len(out) || err2 != nil || kind != websocket.BinaryMessage || !bytes.Equal(back, out) {
			return fmt.Sprintf("write of %d bytes gave %d, %v; received type %d, %d bytes, %v", len(out), m, err, kind, len(back), err2)
		}
		return ""
	})
}

// The WebSocket connection as a stream.

// the bytes of the messages received so far, did receiving fail
ghost wsin bytes
ghost wsfailed bool
// the messages sent: kind and content
ghost wsout seq(bytes)
ghost wskinds seq(int)
ghost wstried int

extern (*websocket.Conn).ReadMessage(c) (kind, p, err) {
  modifies wsin, wsfailed
  ensures err == nil ==> wsin == old(wsin) + bytes(p) && fresh(p) && wsfailed == old(wsfailed)
  ensures err != nil ==> wsin == old(wsin) && wsfailed
}
extern (*websocket.Conn).WriteMessage(c, kind, p) (err) {
  modifies wsout, wskinds, wstried
  ensures wstried == old(wstried) + 1
  ensures err == nil ==> wsout == old(wsout) + unit(bytes(p)) && wskinds == old(wskinds) + unit(kind)
  ensures err != nil ==> wsout == old(wsout) && wskinds == old(wskinds)
}

ghost wsdials seq(bytes)
// connections closed
ghost wsclosed seq(ref)
extern (*websocket.Conn).Close(c) (err) {
  modifies wsclosed
  ensures wsclosed == old(wsclosed) + unit(ref(c))
}
extern (*websocket.Dialer).Dial(d, url, header) (c, resp, err) {
  modifies wsdials
  ensures wsdials == old(wsdials) + unit(url)
  ensures err == nil ==> c != nil
}

typeinv rtspclient.WebsocketConn(w): w.conn != nil

// what was received and not yet given to a reader is what remains
func (*rtspclient.WebsocketConn).Read(w, b) (n, err) {
  requires w != nil
  modifies wsin, wsfailed, b[*], w.remain
  ensures[C22] n: 0 <= n && n <= len(b)
  ensures[C22] stream: old(bytes(w.remain)) + wsin[len(old(wsin)):] == bytes(b)[:n] + bytes(w.remain)
  ensures[C22] grows: prefix(old(wsin), wsin)
  ensures[C22] rest: bytes(b)[n:] == old(bytes(b))[n:]
  ensures[C22] error: err != nil ==> n == 0 && wsfailed && wsin == old(wsin)
  ensures[C22] fine: err == nil ==> wsfailed == old(wsfailed)
  ensures[C22] held_first: len(old(w.remain)) > 0 ==> wsin == old(wsin) && err == nil
  ensures[C22] filled: err == nil && len(w.remain) > 0 ==> n == len(b)
}
func (*rtspclient.WebsocketConn).Write(w, b) (n, err) {
  requires w != nil
  modifies wsout, wskinds, wstried
  ensures[C22] once: wstried == old(wstried) + 1
  ensures[C22] sent: err == nil ==> n == len(b) && wsout == old(wsout) + unit(bytes(b)) && wskinds == old(wskinds) + unit(2)
  ensures[C22] failed: err != nil ==> n == 0 && wsout == old(wsout) && wskinds == old(wskinds)
}

spec ws_local(c ref) ref
spec ws_remote(c ref) ref
extern (*websocket.Conn).LocalAddr(c) (a) { ensures ref(a) == ws_local(ref(c)) }
extern (*websocket.Conn).RemoteAddr(c) (a) { ensures ref(a) == ws_remote(ref(c)) }
func (*rtspclient.WebsocketConn).LocalAddr(w) (a) {
  requires w != nil
  ensures[C22] ref(a) == ws_local(ref(w.conn))
}
func (*rtspclient.WebsocketConn).RemoteAddr(w) (a) {
  requires w != nil
  ensures[C22] ref(a) == ws_remote(ref(w.conn))
}

// the deadlines of the underlying connection
ghost rdeadline map(ref, time.Time)
ghost wdeadline map(ref, time.Time)
extern (*websocket.Conn).SetReadDeadline(c, t) (err) {
  modifies rdeadline
  ensures err == nil ==> rdeadline == mapupd(old(rdeadline), ref(c), t)
  ensures err != nil ==> rdeadline == old(rdeadline)
}
extern (*websocket.Conn).SetWriteDeadline(c, t) (err) {
  modifies wdeadline
  ensures err == nil ==> wdeadline == mapupd(old(wdeadline), ref(c), t)
  ensures err != nil ==> wdeadline == old(wdeadline)
}
func (*rtspclient.WebsocketConn).SetReadDeadline(w, t) (err) {
  requires w != nil
  modifies rdeadline
  ensures[C22] err == nil ==> rdeadline == mapupd(old(rdeadline), ref(w.conn), t)
  ensures[C22] err != nil ==> rdeadline == old(rdeadline)
}
func (*rtspclient.WebsocketConn).SetWriteDeadline(w, t) (err) {
  requires w != nil
  modifies wdeadline
  ensures[C22] err == nil ==> wdeadline == mapupd(old(wdeadline), ref(w.conn), t)
  ensures[C22] err != nil ==> wdeadline == old(wdeadline)
}
func (*rtspclient.WebsocketConn).SetDeadline(w, t) (err) {
  requires w != nil
  modifies rdeadline, wdeadline
  ensures[C22] err == nil ==> rdeadline == mapupd(old(rdeadline), ref(w.conn), t) && wdeadline == mapupd(old(wdeadline), ref(w.conn), t)
}

// closing is announced and closes the underlying connection, so that reads and writes under way return
extern websocket.FormatCloseMessage(code, text) (p) { }
func (*rtspclient.WebsocketConn).Close(w) (err) {
  requires w != nil
  modifies wsout, wskinds, wstried, wsclosed
  ensures[C22] closed: wsclosed == old(wsclosed) + unit(ref(w.conn))
  ensures[C22] announced: wstried == old(wstried) + 1 && (wskinds == old(wskinds) || wskinds == old(wskinds) + unit(8))
  ensures[C22] fine: err == nil ==> wskinds == old(wskinds) + unit(8)
}

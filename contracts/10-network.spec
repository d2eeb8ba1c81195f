// The connection: cutting the inbound stream into messages, sending.

// all bytes taken from the stream so far; did taking them fail
ghost input bytes
ghost readfailed bool
// the data of the data events given to the event handler so far, one after the other
ghost handed bytes

// (waits until there is something to read)
// how long the network connection may wait for bytes (-1: no limit); was it any given time (`allowed`, which nothing changes) at every read
ghost deadline int
ghost allowed int
ghost limited bool
extern (*bufio.Reader).Read(b, p) (n, err) {
  modifies p[*], input, readfailed, limited
  ensures[C26] limited <==> old(limited) && deadline == allowed
  ensures 0 <= n && n <= len(p)
  ensures input == old(input) + bytes(p)[:n]
  ensures readfailed <==> old(readfailed) || err != nil
}

extern io.ReadFull(r, p) (n, err) {
  modifies p[*], input, readfailed, limited
  ensures[C26] limited <==> old(limited) && deadline == allowed
  ensures 0 <= n && n <= len(p) && (err == nil <==> n == len(p))
  ensures input == old(input) + bytes(p)[:n]
  ensures readfailed <==> old(readfailed) || err != nil
}

typeinv tcpnetwork.Connection(c):
  c.connRW != nil && c.connRW.Reader != nil && c.connRW.Writer != nil && c.conn != nil && c.sendMsgQueue != nil && c.maxReadBufferLength == 65539

// ---- the messages of an RTSP stream
spec is_rtsp(m bytes) bool = m[0:4] == "RTSP" || m[0:4] == "rtsp"
spec rtsp_end(m bytes) int = sindex(m, "\r\n\r\n") + 4
spec header_lines(m bytes) seq(bytes) = splitall(m[:rtsp_end(m)], "\r\n")
spec is_header(l bytes, name bytes) bool = sindex(l, ":") >= 0 && replaceall(toupper(l[:sindex(l, ":")]), " ", "") == name
spec header_val(l bytes) bytes = l[sindex(l, ":")+1:]
spec clen_of(ls seq(bytes), n int) int =
  n <= 0 ? 0 : (is_header(ls[n-1], "CONTENT-LENGTH") ? imax(0, atoi(replaceall(header_val(ls[n-1]), " ", ""))) : clen_of(ls, n-1))
def clen(m bytes) int = clen_of(header_lines(m), len(header_lines(m)))
spec reply_clen(m bytes) int = rtsp_end(m) >= 12 ? clen(m) : 0

lemma blank_prefix: forall a bytes, m bytes :: {sindex(a, "\r\n\r\n"), sindex(m, "\r\n\r\n")}
  prefix(a, m) && sindex(a, "\r\n\r\n") >= 0 ==> sindex(m, "\r\n\r\n") == sindex(a, "\r\n\r\n")
lemma clen_prefix: forall a bytes, m bytes :: {clen(a), clen(m)}
  prefix(a, m) && sindex(a, "\r\n\r\n") >= 0 ==> clen(m) == clen(a)

spec isframe(m bytes) bool =
  len(m) >= 4 &&
  (m[0] == 36 ==> len(m) == 4 + be16(m, 2)) &&
  (m[0] != 36 && is_rtsp(m) ==> sindex(m, "\r\n\r\n") >= 0 && len(m) == rtsp_end(m) + reply_clen(m))
// a reply too long for the buffer
spec istoolong(m bytes) bool =
  len(m) >= 4 && is_rtsp(m) &&
  (sindex(m, "\r\n\r\n") < 0 ? len(m) == 65539 : rtsp_end(m) + reply_clen(m) > 65539)

// what a protocol puts in front of a message (RTSP: nothing)
spec other_header(t int, d bytes) bytes
spec proto_header(t int, d bytes) bytes = t == type("*rtspclient.RTPStreamProtocol") ? "" : other_header(t, d)

interface tcpnetwork.IStreamProtocol.Init(self) () { }
interface tcpnetwork.IStreamProtocol.GetHeaderLength(self) (n) {
  ensures n == 4
}
interface tcpnetwork.IStreamProtocol.UnserializeHeader(self, h) (n, eof) {
  requires len(h) == 4
  ensures n <= 65535
  ensures[C01,C26] frame: h[0] == 36 ==> n == be16(bytes(h), 2) && eof == nil
  ensures[C01,C26] reply: h[0] != 36 && is_rtsp(bytes(h)) ==> n == 0 && eof != nil && bytes(eof) == "\r\n\r\n"
  ensures[C01,C26] other: h[0] != 36 && !is_rtsp(bytes(h)) ==> n < 0 && eof == nil
  ensures eof != nil ==> len(eof) >= 1
}
interface tcpnetwork.IStreamProtocol.SerializeHeader(self, d) (h) {
  ensures[C21] bytes(h) == proto_header(dyn(self), bytes(d))
}
interface tcpnetwork.IStreamProtocol.GetContentLength(self, m) (n) {
  requires len(m) >= 4
  ensures n >= 0
  ensures[C01] reply: is_rtsp(bytes(m)) && sindex(bytes(m), "\r\n\r\n") >= 0 && len(m) == rtsp_end(bytes(m)) ==> n == reply_clen(bytes(m))
  ensures[C01] other: !is_rtsp(bytes(m)) ==> n == 0
}

func (*tcpnetwork.Connection).read(c, buf) (err) {
  requires c != nil
  modifies buf[*], input, readfailed, limited
  ensures[C26] within: deadline == allowed && old(limited) ==> limited
  ensures[C01] extends: prefix(old(input), input)
  ensures[C01] all: err == nil ==> input == old(input) + bytes(buf)
  ensures[C01] fails: err != nil ==> readfailed
  ensures[C01] ok: err == nil ==> readfailed == old(readfailed)
  loop 1 {
    invariant[C01] input == old(input) + bytes(buf)[:readLen]
    invariant[C01] readfailed == old(readfailed)
    invariant[C26] deadline == allowed && old(limited) ==> limited
    event
  }
}

extern net.Conn.SetReadDeadline(c, t) (err) {
  modifies deadline
  ensures[C26] deadline == ahead(t)
}
// the connection's limit; the seconds fit a duration
spec limit_of(sec int) int = sec * 1000000000

// unpack takes one message from the stream
spec framed(m bytes) bool = len(m) >= 4 && (m[0] == 36 || is_rtsp(m))
func (*tcpnetwork.Connection).unpack(c, buf) (msg, err) {
  requires c != nil && c.streamProtocol != nil && len(buf) == 65539
  modifies buf[*], input, readfailed, deadline, limited
  ensures[C26] limited: 0 < c.readTimeoutSec && c.readTimeoutSec <= 9223372036 && allowed == limit_of(c.readTimeoutSec) && old(limited) ==> limited
  ensures[C26] unlimited: c.readTimeoutSec == 0 ==> deadline == old(deadline)
  ensures[C26] lifted: c.readTimeoutSec != 0 && err == nil && framed(bytes(msg)) ==> deadline == -1
  ensures[C01] extends: prefix(old(input), input)
  ensures err == nil ==> len(msg) <= 65539
  ensures[C01] message: err == nil ==> input == old(input) + bytes(msg) && fresh(msg)
  ensures[C01] frame: err == nil ==> isframe(bytes(msg))
  ensures[C01] fails: err != nil ==> readfailed || istoolong(input[len(old(input)):])
  loop 1 {
    invariant[C01] input == old(input) + bytes(buf)[:4+curBodyPos]
    invariant[C01] is_rtsp(bytes(buf)) && buf[0] != 36
    invariant[C26] 0 < c.readTimeoutSec && c.readTimeoutSec <= 9223372036 ==> deadline == limit_of(c.readTimeoutSec) && (allowed == deadline && old(limited) ==> limited)
    invariant[C26] c.readTimeoutSec == 0 ==> deadline == old(deadline)
    invariant[C01] forall i int :: {buf[i]} 4 <= i && i <= curBodyPos ==> !(buf[i] == 13 && buf[i+1] == 10 && buf[i+2] == 13 && buf[i+3] == 10)
  }
}

// the owner of a connection is told what happens to it
ghost events seq(int)
callback tcpnetwork.Connection.eventHandler(e) {
  requires e != nil && (e.EventType == 3 ==> len(e.Data) <= 65539)
  requires[C01] message: e.EventType == 3 ==> isframe(bytes(e.Data))
  requires[C21] gone: e.EventType == 2 ==> e.Conn != nil && e.Conn.status != 1
  modifies handed, events
  ensures[C01] handed == (e.EventType == 3 ? old(handed) + bytes(e.Data) : old(handed))
  ensures[C21] events == old(events) + unit(e.EventType)
}

// the bytes handed on by a run of the reading routine, and the bytes taken in
func (*tcpnetwork.Connection).routineRead(c) (err) {
  requires c != nil && c.streamProtocol != nil
  modifies input, readfailed, handed, events, deadline, limited
  ensures[C02] ends: true
  ensures[C01] extends: prefix(old(input), input) && prefix(old(handed), handed)
  ensures[C01] handed: c.eventHandler != nil ==> prefix(handed[len(old(handed)):], input[len(old(input)):])
  ensures[C01] end: c.eventHandler != nil ==> readfailed || istoolong(input[len(old(input)) + len(handed) - len(old(handed)):])
  ensures[C21] events: len(old(events)) <= len(events) && events[:len(old(events))] == old(events) &&
    (forall i int :: {events[i]} len(old(events)) <= i && i < len(events) ==> events[i] == 3)
  loop 1 {
    invariant[C01] prefix(old(input), input) && prefix(old(handed), handed)
    invariant[C01] c.eventHandler != nil ==> len(handed) - len(old(handed)) == len(input) - len(old(input))
    invariant[C01] c.eventHandler != nil ==> handed[len(old(handed)):] == input[len(old(input)):]
    invariant[C21] len(old(events)) <= len(events) && events[:len(old(events))] == old(events) &&
      (forall i int :: {events[i]} len(old(events)) <= i && i < len(events) ==> events[i] == 3)
    event
  }
}

// ---- sending
// the messages put into the queue so far, how many ends of the stream were queued, whether the last message queued is
// memory its sender holds too
ghost queued seq(bytes)
ghost ends int
ghost lent bool
// how often the network connection was closed
ghost closes int

interface net.Conn.Close(c) (err) {
  modifies closes
  ensures closes == old(closes) + 1
}

send tcpnetwork.Connection.sendMsgQueue(m) {
  modifies queued, ends, lent
  ensures queued == (m == nil ? old(queued) : old(queued) + unit(bytes(m)))
  ensures ends == (m == nil ? old(ends) + 1 : old(ends))
  ensures[C21] lent <==> !fresh(m)
}

func (*tcpnetwork.Connection).close(c) {
  requires c != nil
  modifies c.status, closes
  ensures[C09,C10,C12,C21] once: old(c.status) == 1 ==> closes == old(closes) + 1 && c.status == 2
  ensures[C09,C10,C12,C21] idle: old(c.status) != 1 ==> closes == old(closes) && c.status == old(c.status)
  ensures[C09,C10,C12,C21] old(c.status) == 1 ==> c.status == 2
}

func (*tcpnetwork.Connection).Send(c, msg, needCopy) {
  requires c != nil
  modifies queued, ends, lent, waited, c.status, closes
  ensures[C09,C10,C12,C21] idle: old(c.status) != 1 ==> queued == old(queued) && c.status == old(c.status) && closes == old(closes)
  ensures[C09,C10,C12,C21] queues: old(c.status) == 1 && c.status == 1 && (msg != nil || needCopy) ==> queued == old(queued) + unit(bytes(msg)) && closes == old(closes)
  ensures[C09,C10,C12,C21] stuck: old(c.status) == 1 && c.status != 1 ==> c.status == 2 && queued == old(queued)
  ensures[C09,C10,C12,C21] stuck_closed: old(c.status) == 1 && c.status != 1 ==> closes == old(closes) + 1
  ensures[C09,C10,C12,C21] end: ends == old(ends) + (msg == nil && !needCopy && old(c.status) == 1 && c.status == 1 ? 1 : 0)
  ensures[C21] copy: needCopy && queued != old(queued) ==> !lent
  ensures[C21] limit: old(c.status) == 1 && 0 <= c.sendTimeoutSec && c.sendTimeoutSec <= 9223372036 ==> waited == c.sendTimeoutSec * 1000000000
}

func (*tcpnetwork.Connection).Close(c) {
  requires c != nil
  modifies queued, ends, lent, waited, c.status, closes
  ensures[C09,C10,C12,C21] idle: old(c.status) != 1 ==> ends == old(ends) && c.status == old(c.status) && closes == old(closes)
  ensures[C09,C10,C12,C21] ends: old(c.status) == 1 ==>
    (ends == old(ends) + 1 && c.status == 1 && closes == old(closes) || ends == old(ends) && c.status == 2 && closes == old(closes) + 1)
  ensures[C09,C10,C12,C21] queue: queued == old(queued)
  ensures[C21] limit: old(c.status) == 1 && 0 <= c.sendTimeoutSec && c.sendTimeoutSec <= 9223372036 ==> waited == c.sendTimeoutSec * 1000000000
}

// ---- the sending routine
// messages taken from the queue; was the last thing taken an end (nil message or closed queue), or a nil message
ghost taken seq(bytes)
ghost drained bool
ghost hungup bool
// bytes written, and bytes written that were flushed
ghost written bytes
ghost flushed bytes

recv tcpnetwork.Connection.sendMsgQueue() (m, ok) {
  modifies taken, drained, hungup
  ensures drained <==> m == nil
  ensures hungup <==> m == nil && ok
  ensures taken == (m == nil ? old(taken) : old(taken) + unit(bytes(m)))
}
extern (*bufio.Writer).Write(b, p) (n, err) {
  modifies written
  ensures prefix(old(written), written) && prefix(written, old(written) + bytes(p))
  ensures err == nil ==> written == old(written) + bytes(p)
}
extern (*bufio.Writer).Flush(b) (err) {
  modifies flushed
  ensures flushed == written
}

// what the messages a to n-1 of q look like on the wire
spec wire(t int, q seq(bytes), a int, n int) bytes = n <= a ? "" : wire(t, q, a, n-1) + proto_header(t, q[n-1]) + q[n-1]
lemma wire_ext induction n: forall t int, q seq(bytes), m bytes, a int, n int :: {wire(t, q + unit(m), a, n)}
  0 <= a && n <= len(q) ==> wire(t, q + unit(m), a, n) == wire(t, q, a, n)

func (*tcpnetwork.Connection).routineSend(c) (err) {
  requires c != nil && c.streamProtocol != nil
  modifies taken, drained, hungup, written, flushed, c.status, closes
  ensures[C21] in_order: err == nil ==>
     written == old(written) + wire(dyn(c.streamProtocol), taken, len(old(taken)), len(taken)) && (len(taken) > len(old(taken)) ==> flushed == written)
  ensures[C21] after_error: err != nil ==> (let k = len(taken) - 1 in k >= len(old(taken)) &&
    (let w = old(written) + wire(dyn(c.streamProtocol), taken, len(old(taken)), k) in
      prefix(w, written) && (k > len(old(taken)) ==> prefix(w, flushed)) && prefix(written, w + proto_header(dyn(c.streamProtocol), taken[k]) + taken[k])))
  ensures[C21] ends: err == nil ==> drained
  ensures[C21] hangup: err == nil && hungup ==> c.status != 1 && closes == old(closes) + (old(c.status) == 1 ? 1 : 0)
  ensures[C21] open: err != nil || !hungup ==> c.status == old(c.status) && closes == old(closes)
  loop 1 {
    invariant[C21] len(taken) >= len(old(taken))
    invariant[C21] len(taken) > len(old(taken)) ? flushed == written : flushed == old(flushed)
    invariant[C21] written == old(written) + wire(dyn(c.streamProtocol), taken, len(old(taken)), len(taken))
    invariant[C21] c.status == old(c.status) && closes == old(closes)
    event
  }
}

// ---- running
ghost senders int
ghost runs int
callback go.(*tcpnetwork.Connection).routineSend(c) {
  requires[C21] c.streamProtocol != nil
  modifies senders
  ensures senders == old(senders) + 1
}
callback go.(*tcpnetwork.Connection).routineMain(c) {
  requires[C21] connected: c.status == 1
  modifies runs
  ensures runs == old(runs) + 1
}
ghost queuesclosed int
close tcpnetwork.Connection.sendMsgQueue() {
  modifies queuesclosed
  ensures queuesclosed == old(queuesclosed) + 1
}

func (*tcpnetwork.Connection).Run(c) {
  requires c != nil
  modifies runs, c.status
  ensures[C21,C23] connected: c.status == 1 && runs == old(runs) + 1
}

// what the owner is told: connected, data, ..., data, disconnected, the network connection being closed by then
func (*tcpnetwork.Connection).routineMain(c) {
  requires c != nil
  modifies input, readfailed, handed, events, deadline, limited, senders, queuesclosed, c.status, c.sendMsgQueue, closes
  ensures[C02] ends: true
  ensures[C01] reads: c.eventHandler != nil && c.streamProtocol != nil ==> prefix(old(handed), handed) && prefix(old(input), input) &&
    prefix(handed[len(old(handed)):], input[len(old(input)):]) && (readfailed || istoolong(input[len(old(input)) + len(handed) - len(old(handed)):]))
  ensures[C21] told: c.eventHandler != nil ==> len(events) > len(old(events)) && events[:len(old(events))] == old(events) && events[len(events)-1] == 2
  ensures[C21] told_first: c.eventHandler != nil && c.streamProtocol != nil ==> len(events) >= len(old(events)) + 2 && events[len(old(events))] == 1
  ensures[C21] told_data: c.eventHandler != nil && c.streamProtocol != nil ==> 
    (forall i int :: {events[i]} len(old(events)) + 1 <= i && i < len(events) - 1 ==> events[i] == 3)
  ensures[C21] closed: c.status != 1 && closes == old(closes) + (old(c.status) == 1 ? 1 : 0)
  ensures[C21] released: queuesclosed == old(queuesclosed) + 1
  ensures[C21] sender: senders == old(senders) + (c.streamProtocol == nil ? 0 : 1)
}

extern bufio.NewReaderSize(c, n) (r) { ensures r != nil }
extern bufio.NewWriterSize(c, n) (r) { ensures r != nil }
extern bufio.NewReadWriter(r, w) (rw) { ensures rw != nil && rw.Reader == r && rw.Writer == w }
func tcpnetwork.NewConnection(nc, size, h) (c) {
  requires nc != nil && size >= 0
  ensures c != nil && c.eventHandler == h && c.streamProtocol == nil
  ensures[C21,C23] c.conn == nc && c.status == 0 && c.sendBufferSize == size
  ensures[C21] c.sendTimeoutSec == 5
  ensures[C21,C26] no_limit: c.readTimeoutSec == 0
}
func (*tcpnetwork.Connection).SetStreamProtocol(c, p) {
  requires c != nil
  modifies c.streamProtocol
  ensures c.streamProtocol == p
}


// ---- the read timeout
func (*tcpnetwork.Connection).SetReadTimeoutSec(c, sec) {
  requires c != nil
  modifies c.readTimeoutSec
  ensures[C26] set: c.readTimeoutSec == sec
}
func (*tcpnetwork.Connection).GetReadTimeoutSec(c) (r) {
  requires c != nil
  ensures[C26] get: r == c.readTimeoutSec
}

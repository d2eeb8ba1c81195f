// The client session: dispatch of received messages, handshake, requests, replies.

ghost delivered seq(rtspclient.RtspData)

callback rtspclient.RtspClientSession.dataHandle(d) {
  requires d != nil
  modifies delivered
  ensures delivered == old(delivered) + unit(*d)
}

typeinv rtspclient.RtspClientSession(s):
  s.rtpChannelMap != nil && s.RtpMediaMap != nil && s.rtspContext != nil && s.rtpProtocol != nil && s.dataHandle != nil &&
  s.eventQueue != nil && s.rtspResponseQueue != nil &&
  (forall c int :: c in s.rtpChannelMap ==> s.rtpChannelMap[c] != nil)

// what the units of a packet's payload q deliver, given what is held
spec feed(k int, q bytes, mark bool, h bytes, ch int, s ref) seq(rtspclient.RtspData) =
  len(q) == 0 ? none("seq(rtspclient.RtspData)") :
  (let n = unit_len(k, q) in let u = q[unit_hdr(k, q):n] in
    (emits(mark, h, u) ? unit(mk("rtspclient.RtspData", ch, s, emitted(mark, h, u))) : none("seq(rtspclient.RtspData)"))
    + feed(k, q[n:], mark, keeps(mark, h, u), ch, s))
spec feed_held(k int, q bytes, mark bool, h bytes) bytes =
  len(q) == 0 ? h :
  (let n = unit_len(k, q) in let u = q[unit_hdr(k, q):n] in feed_held(k, q[n:], mark, keeps(mark, h, u)))

func (*rtspclient.RtspClientSession).parsingRtp(s, data) {
  requires s != nil
  requires len(data) >= 4 && len(data) <= 65539
  modifies delivered, data[*], s.rtpChannelMap[data[1]].payloadLen, s.rtpChannelMap[data[1]].payloadBuf[*], s.rtpChannelMap[data[1]].isMarkFrame
  ensures[C06] unregistered: len(data) < 16 || !(old(data)[1] in s.rtpChannelMap) ==> delivered == old(delivered)
  ensures[C06] short: len(data) < 16 && old(data)[1] in s.rtpChannelMap ==>
     (let p = s.rtpChannelMap[old(data)[1]] in bytes(p.payloadBuf[:p.payloadLen]) == old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen]))
  ensures[C06] delivers: len(data) >= 16 && old(data)[1] in s.rtpChannelMap ==>
     (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      delivered == old(delivered) + feed(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen]), old(data)[1], ref(s)))
  ensures[C06] keeps: len(data) >= 16 && old(data)[1] in s.rtpChannelMap ==>
     (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      bytes(p.payloadBuf[:p.payloadLen]) == feed_held(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen])))
  loop 1 {
    invariant 0 <= totalLength && totalLength <= len(payload)
    invariant[C06] len(payload) > 0 ==> (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      delivered + feed(split_kind(t, rtp), bytes(payload)[totalLength:], split_done(t, rtp), bytes(p.payloadBuf[:p.payloadLen]), old(data)[1], ref(s))
       == old(delivered) + feed(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen]), old(data)[1], ref(s)))
    invariant[C06] len(payload) > 0 ==> (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      feed_held(split_kind(t, rtp), bytes(payload)[totalLength:], split_done(t, rtp), bytes(p.payloadBuf[:p.payloadLen]))
       == feed_held(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen])))
    invariant[C06] len(payload) == 0 ==> delivered == old(delivered) && totalLength == 0 &&
      bytes(s.rtpChannelMap[old(data)[1]].payloadBuf[:s.rtpChannelMap[old(data)[1]].payloadLen]) == old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen])
    or // the payload shrinks
    invariant[C06] $i > 0 || len(payload) > 0 ==> (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      delivered + feed(split_kind(t, rtp), bytes(payload), split_done(t, rtp), bytes(p.payloadBuf[:p.payloadLen]), old(data)[1], ref(s))
       == old(delivered) + feed(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen]), old(data)[1], ref(s)))
    invariant[C06] $i > 0 || len(payload) > 0 ==> (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      feed_held(split_kind(t, rtp), bytes(payload), split_done(t, rtp), bytes(p.payloadBuf[:p.payloadLen]))
       == feed_held(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen])))
    invariant[C06] $i == 0 && len(payload) == 0 ==> delivered == old(delivered) &&
      bytes(s.rtpChannelMap[old(data)[1]].payloadBuf[:s.rtpChannelMap[old(data)[1]].payloadLen]) == old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen])
    invariant[C06] $i == 0 ==> (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in bytes(payload) == split_data(t, old(data)[4:]))
    decreases len(payload)
  }
}

// ---- dispatch of what the connection receives
ghost inbox seq(bytes)
ghost parsed seq(bytes)
ghost answered seq(rtspclient.RtspResponseContext)
ghost refused int

// what the user is told
ghost notes seq(int)
callback rtspclient.RtspClientSession.eventHandle(e) {
  requires e != nil
  modifies notes
  ensures notes == old(notes) + unit(e.EventType)
}

// the events handed to the session's queue, and those taken from it (4, an end, for nil and when the queue was closed)
ghost posted seq(tcpnetwork.ConnEvent)
ghost heard seq(int)
ghost released int
send rtspclient.RtspClientSession.eventQueue(e) {
  served
  requires e != nil && (e.EventType == 3 ==> len(e.Data) <= 65539)
  modifies posted
  ensures[C23] posted == old(posted) + unit(*e)
}
recv rtspclient.RtspClientSession.eventQueue() (e, ok) {
  modifies inbox, heard
  ensures[C23] heard == old(heard) + unit(e == nil ? 4 : e.EventType)
  ensures e != nil && e.EventType == 3 ==> ok && len(e.Data) <= 65539
  ensures[C06,C23] inbox == (e != nil && e.EventType == 3 && e.Data != nil ? old(inbox) + unit(bytes(e.Data)) : old(inbox))
}
// whoever waits for a reply is released
close rtspclient.RtspClientSession.rtspResponseQueue() {
  modifies released
  ensures released == old(released) + 1
}
func (*rtspclient.RtspClientSession).pushConnEvent(s, e) {
  requires s != nil && e != nil && (e.EventType == 3 ==> len(e.Data) <= 65539)
  modifies posted
  ensures[C23] forwarded: posted == old(posted) + unit(old(*e))
  ensures[C02] ends: true
}

send rtspclient.RtspClientSession.rtspResponseQueue(r) {
  modifies answered, refused
  ensures answered == (r == nil ? old(answered) : old(answered) + unit(*r))
  ensures refused == old(refused) + (r == nil ? 1 : 0)
}
// a reply is handed on as it was decoded (or dropped when nothing waits for it)
func (*rtspclient.RtspClientSession).parsingRtsp(s, data) {
  requires s != nil
  modifies answered, refused, waited
  ensures[C02] ends: true
  ensures[C07] accepted: answered == old(answered) || accepted(bytes(data)) && len(answered) == len(old(answered)) + 1 && answered[:len(old(answered))] == old(answered)
  ensures[C07] refused: refused == old(refused) || !accepted(bytes(data)) && refused == old(refused) + 1
  ensures[C07] status: answered != old(answered) ==> answered[len(old(answered))].Status == atoi(bytes(data)[9:12])
  ensures[C07] length: answered != old(answered) ==> answered[len(old(answered))].contentLength == clen(bytes(data))
  ensures[C07] session: answered != old(answered) ==> answered[len(old(answered))].sessionID == session_of(header_lines(bytes(data)), len(header_lines(bytes(data))), "")
  ensures[C07] body: answered != old(answered) && rtsp_end(bytes(data)) + clen(bytes(data)) <= len(data) ==>
     answered[len(old(answered))].content == bytes(data)[rtsp_end(bytes(data)):rtsp_end(bytes(data)) + clen(bytes(data))]
}
func (*rtspclient.RtspClientSession).parsingData(s, data) {
  requires s != nil && len(data) <= 65539
  modifies parsed, answered, refused, waited, delivered, data[*], s.rtpChannelMap[data[1]].payloadLen, s.rtpChannelMap[data[1]].payloadBuf[*], s.rtpChannelMap[data[1]].isMarkFrame
  assumes[C06,C23] parsed: parsed == old(parsed) + unit(old(bytes(data)))
  ensures[C02] ends: true
  ensures[C07] other: len(data) < 4 || !is_rtsp(old(bytes(data))) ==> answered == old(answered) && refused == old(refused)
  ensures[C07] accepted: answered == old(answered) || accepted(old(bytes(data))) && len(answered) == len(old(answered)) + 1 && answered[:len(old(answered))] == old(answered)
  ensures[C07] refused: refused == old(refused) || !accepted(old(bytes(data))) && refused == old(refused) + 1
  ensures[C06] unregistered: len(data) < 16 || old(data)[0] != '$' || !(old(data)[1] in s.rtpChannelMap) ==> delivered == old(delivered)
  ensures[C06] delivers: len(data) >= 16 && old(data)[0] == '$' && old(data)[1] in s.rtpChannelMap ==>
     (let p = s.rtpChannelMap[old(data)[1]] in let t = dyn(p.rtpSourceHandler) in let rtp = old(data)[4:] in
      delivered == old(delivered) + feed(split_kind(t, rtp), split_data(t, rtp), split_done(t, rtp),
          old(s.rtpChannelMap[data[1]].payloadBuf[:s.rtpChannelMap[data[1]].payloadLen]), old(data)[1], ref(s)))
}
// the events that end a session: the connection was lost, closed
spec last_event(t int) bool = t == 2 || t == 4
// everything received is looked at once, in order
func (*rtspclient.RtspClientSession).HandleConn(s) {
  requires s != nil && s.tcpConn != nil
  modifies anything
  ensures[C02] ends: true
  ensures[C06,C23] dispatched: parsed == old(parsed) + inbox[len(old(inbox)):] && len(old(inbox)) <= len(inbox) && inbox[:len(old(inbox))] == old(inbox)
  ensures[C23] until_end: (let n = len(old(heard)) in len(heard) > n && heard[:n] == old(heard) && last_event(heard[len(heard)-1]) &&
     (forall i int :: {heard[i]} n <= i && i < len(heard) - 1 ==> !last_event(heard[i])))
  ensures[C23] told: notes == old(notes) + (heard[len(heard)-1] == 2 && s.eventHandle != nil ? unit(3) : none("seq(int)"))
  ensures[C23] released: released == old(released) + 1 && s.rtspResponseQueue != nil && s.eventQueue != nil
  loop 1 {
    invariant s.tcpConn != nil
    invariant[C23] notes == old(notes) && released == old(released)
    invariant[C23] (let n = len(old(heard)) in len(heard) >= n && heard[:n] == old(heard) &&
     (forall i int :: {heard[i]} n <= i && i < len(heard) ==> !last_event(heard[i])))
    invariant[C06,C23] parsed == old(parsed) + inbox[len(old(inbox)):] && len(old(inbox)) <= len(inbox) && inbox[:len(old(inbox))] == old(inbox)
    event
  }
}

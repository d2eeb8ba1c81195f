// Starting, running and losing a session's connection.

// the addresses dialled
ghost dials seq(bytes)
ghost handlers int
extern net.DialTimeout(network, address, timeout) (c, err) {
  modifies dials, waited
  ensures dials == old(dials) + unit(address) && waited == timeout
  ensures err == nil ==> c != nil
}
interface error.Error(e) (r) { }
callback go.(*rtspclient.RtspClientSession).HandleConn(s) {
  requires[C23] running: s.tcpConn != nil
  modifies handlers
  ensures handlers == old(handlers) + 1
}

func rtspclient.NewRtspClientSession(data, event) (s) {
  requires data != nil
  ensures s != nil && fresh(s)
  ensures[C23] start: s.dataHandle == data && s.eventHandle == event && s.tcpConn == nil && s.rtspRequestInitial && s.timeoutSec == 2 && s.sdpInfo == nil
}

// one reader, one dispatcher, one handshake
func (*rtspclient.RtspClientSession).SetConnection(s, conn) (err) {
  requires s != nil && conn != nil
  modifies queued, lent, waited, ends, closes, hashed, answers, replies, lastanswer, notes, runs, handlers, s.tcpConn, s.rtspRequestInitial, s.rtspContext.cseq,
    s.sdpInfo, s.rtspContext.authenicator, s.rtspContext.sessionID, s.rtpChannelMap[*], s.RtpMediaMap[*]
  ensures[C23] connection: s.tcpConn != nil && s.tcpConn.conn == conn && s.tcpConn.eventHandler != nil && dyn(s.tcpConn.streamProtocol) == type("*rtspclient.RTPStreamProtocol")
  ensures[C23] running: runs == old(runs) + 1 && handlers == old(handlers) + 1
  ensures[C23] reported: s.eventHandle != nil ==> notes == old(notes) + unit(err == nil ? 1 : 2)
}

func (*rtspclient.RtspClientSession).Play(s, text) (err) {
  requires s != nil
  modifies queued, lent, waited, ends, closes, hashed, answers, replies, lastanswer, notes, runs, handlers, dials, s.tcpConn, s.rtspRequestInitial, s.rtspContext.cseq,
    s.sdpInfo, s.rtspContext.authenicator, s.rtspContext.sessionID, s.rtpChannelMap[*], s.RtpMediaMap[*], s.address, s.username, s.password, s.rtspContext.rtspURL
  ensures[C23] busy: old(s.tcpConn != nil && s.tcpConn.status == 1) ==> err != nil && s.address == old(s.address) && s.rtspContext.rtspURL == old(s.rtspContext.rtspURL)
  ensures[C23] refused: old(s.tcpConn != nil && s.tcpConn.status == 1) || !url_ok(text) ==>
     err != nil && dials == old(dials) && notes == old(notes) && s.tcpConn == old(s.tcpConn) && queued == old(queued) && runs == old(runs) && handlers == old(handlers)
  ensures[C23] dials: !old(s.tcpConn != nil && s.tcpConn.status == 1) && url_ok(text) ==> dials == old(dials) + unit(dial_address(url_of(text)))
  ensures[C23] unreachable: !old(s.tcpConn != nil && s.tcpConn.status == 1) && url_ok(text) && runs == old(runs) ==>
     err != nil && s.tcpConn == old(s.tcpConn) && queued == old(queued) && handlers == old(handlers) && notes == old(notes) + (s.eventHandle == nil ? none("seq(int)") : unit(3))
  ensures[C23] started: runs != old(runs) ==> runs == old(runs) + 1 && handlers == old(handlers) + 1 && s.tcpConn != nil &&
     (s.eventHandle != nil ==> notes == old(notes) + unit(err == nil ? 1 : 2))
}

func (*rtspclient.RtspClientSession).PlayUseWebsocket(s, web, text) (err) {
  requires s != nil
  modifies queued, lent, waited, ends, closes, hashed, answers, replies, lastanswer, notes, runs, handlers, wsdials, s.tcpConn, s.rtspRequestInitial, s.rtspContext.cseq,
    s.sdpInfo, s.rtspContext.authenicator, s.rtspContext.sessionID, s.rtpChannelMap[*], s.RtpMediaMap[*], s.address, s.username, s.password, s.rtspContext.rtspURL
  ensures[C23] refused: !url_ok(text) ==>
     err != nil && wsdials == old(wsdials) && notes == old(notes) && s.tcpConn == old(s.tcpConn) && queued == old(queued) && runs == old(runs) && handlers == old(handlers)
  ensures[C23] dials: url_ok(text) ==> wsdials == old(wsdials) + unit(web)
  ensures[C23] unreachable: url_ok(text) && runs == old(runs) ==>
     err != nil && s.tcpConn == old(s.tcpConn) && queued == old(queued) && handlers == old(handlers) && notes == old(notes) + (s.eventHandle == nil ? none("seq(int)") : unit(3))
  ensures[C23] started: runs != old(runs) ==> runs == old(runs) + 1 && handlers == old(handlers) + 1 && s.tcpConn != nil &&
     (s.eventHandle != nil ==> notes == old(notes) + unit(err == nil ? 1 : 2))
}

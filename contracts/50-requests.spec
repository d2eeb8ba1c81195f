// The requests of a session.

spec float32of(n int) opaque(Float)
spec ftext(f opaque(Float)) bytes

spec head(method bytes, url bytes, cseq int) bytes = method + " " + url + " RTSP/1.0\r\nCSeq: " + itoa(cseq) + "\r\n"
spec tail(ua bytes, b int, auth bytes) bytes = "User-agent: " + ua + "\r\n" + (b == 0 ? "" : "Bandwidth: " + itoa(b) + "\r\n") + auth + "\r\n"
def describe_text(url bytes, cseq int, ua bytes, b int, auth bytes) bytes =
  head("DESCRIBE", url, cseq) + "Accept: application/sdp\r\n" + tail(ua, b, auth)
def setup_text(url bytes, cseq int, session bytes, rtp int, rtcp int, extra bytes, ua bytes, b int, auth bytes) bytes =
  head("SETUP", url, cseq) + "Session: " + session + "\r\nTransport: RTP/AVP/TCP;unicast;interleaved=" + itoa(rtp) + "-" + itoa(rtcp) + "\r\n" + extra + tail(ua, b, auth)
def play_text(url bytes, cseq int, session bytes, start int, speed int, ua bytes, b int, auth bytes) bytes =
  head("PLAY", url, cseq) + "Session: " + session + "\r\n" + (start == 0 ? "" : "Range: npt=" + itoa(start) + ".0-\r\n") +
  (speed == 1 ? "" : "Speed: " + ftext(float32of(speed)) + "\r\n") + "x-prebuffer: maxtime=3.0\r\n" + tail(ua, b, auth)
def pause_text(url bytes, cseq int, session bytes, ua bytes, auth bytes) bytes =
  head("PAUSE", url, cseq) + "Session: " + session + "\r\n" + tail(ua, 0, auth)
def teardown_text(url bytes, cseq int, session bytes, ua bytes, auth bytes) bytes =
  head("TEARDOWN", url, cseq) + "Session: " + session + "\r\n" + tail(ua, 0, auth)
// the Authorization header of credentials a (none: nil)
spec auth_text(none bool, a rtspclient.Authenticator, method bytes, url bytes) bytes =
  none ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, method, url)

func (*rtspclient.RtspClientSession).SendDescribe(s) (err) {
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq
  ensures[C09,C10,C12] gate: err == nil <==> old(s.rtspRequestInitial)
  ensures[C09,C10,C12] closed_gate: s.rtspRequestInitial == false
  ensures[C09,C10,C12] refused: err != nil ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes) && s.rtspContext.cseq == old(s.rtspContext.cseq)
  ensures[C09,C10] counts: err == nil && old(s.rtspContext.cseq) < 9223372036854775807 ==> s.rtspContext.cseq == old(s.rtspContext.cseq) + 1
  ensures[C09,C10,C12] idle: err == nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes)
  ensures[C09,C10] request: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status == 1 ==> queued == old(queued) + unit(
    describe_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.userAgent, s.rtspContext.bandwidth, (let a = s.rtspContext.authenicator in a == nil ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, "DESCRIBE", s.rtspContext.rtspURL))))
  ensures[C09,C10,C12] stuck: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status != 1 ==> s.tcpConn.status == 2 && queued == old(queued)
  ensures[C12] one: len(queued) <= len(old(queued)) + 1 && seqprefix(old(queued), queued)
  ensures[C09,C10,C12] ends: ends == old(ends)
}
func (*rtspclient.RtspClientSession).SendTcpSetup(s, url, rtp, rtcp) (err) {
  // where the handshake calls it: the channel is ready for the media
  requires[C10] registered: rtp in s.rtpChannelMap && rtp in s.RtpMediaMap && dyn(s.rtpChannelMap[rtp].rtpSourceHandler) == codec_type(s.RtpMediaMap[rtp].CodecName)
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq
  ensures[C09,C10,C12] gate: err == nil <==> old(s.rtspRequestInitial)
  ensures[C09,C10,C12] closed_gate: s.rtspRequestInitial == false
  ensures[C09,C10,C12] refused: err != nil ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes) && s.rtspContext.cseq == old(s.rtspContext.cseq)
  ensures[C09,C10] counts: err == nil && old(s.rtspContext.cseq) < 9223372036854775807 ==> s.rtspContext.cseq == old(s.rtspContext.cseq) + 1
  ensures[C09,C10,C12] idle: err == nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes)
  ensures[C09,C10] request: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status == 1 ==> queued == old(queued) + unit(
    setup_text(url, old(s.rtspContext.cseq), s.rtspContext.sessionID, rtp, rtcp, s.rtspContext.setupHeaders, s.rtspContext.userAgent, s.rtspContext.bandwidth, (let a = s.rtspContext.authenicator in a == nil ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, "SETUP", url))))
  ensures[C09,C10,C12] stuck: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status != 1 ==> s.tcpConn.status == 2 && queued == old(queued)
  ensures[C12] one: len(queued) <= len(old(queued)) + 1 && seqprefix(old(queued), queued)
  ensures[C09,C10,C12] ends: ends == old(ends)
}
func (*rtspclient.RtspClientSession).SendPlay(s, start, speed) (err) {
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq
  ensures[C09,C10,C12] gate: err == nil <==> old(s.rtspRequestInitial)
  ensures[C09,C10,C12] closed_gate: s.rtspRequestInitial == false
  ensures[C09,C10,C12] refused: err != nil ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes) && s.rtspContext.cseq == old(s.rtspContext.cseq)
  ensures[C09,C10] counts: err == nil && old(s.rtspContext.cseq) < 9223372036854775807 ==> s.rtspContext.cseq == old(s.rtspContext.cseq) + 1
  ensures[C09,C10,C12] idle: err == nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes)
  ensures[C09,C10] request: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status == 1 ==> queued == old(queued) + unit(
    play_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.sessionID, start, speed, s.rtspContext.userAgent, s.rtspContext.bandwidth, (let a = s.rtspContext.authenicator in a == nil ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, "PLAY", s.rtspContext.rtspURL))))
  ensures[C09,C10,C12] stuck: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status != 1 ==> s.tcpConn.status == 2 && queued == old(queued)
  ensures[C12] one: len(queued) <= len(old(queued)) + 1 && seqprefix(old(queued), queued)
  ensures[C09,C10,C12] ends: ends == old(ends)
}
func (*rtspclient.RtspClientSession).SendPause(s) (err) {
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq
  ensures[C09,C10,C12] gate: err == nil <==> old(s.rtspRequestInitial)
  ensures[C09,C10,C12] closed_gate: s.rtspRequestInitial == false
  ensures[C09,C10,C12] refused: err != nil ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes) && s.rtspContext.cseq == old(s.rtspContext.cseq)
  ensures[C09,C10] counts: err == nil && old(s.rtspContext.cseq) < 9223372036854775807 ==> s.rtspContext.cseq == old(s.rtspContext.cseq) + 1
  ensures[C09,C10,C12] idle: err == nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes)
  ensures[C09] request: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status == 1 ==> queued == old(queued) + unit(
    pause_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.sessionID, s.rtspContext.userAgent, (let a = s.rtspContext.authenicator in a == nil ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, "PAUSE", s.rtspContext.rtspURL))))
  ensures[C09,C10,C12] stuck: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status != 1 ==> s.tcpConn.status == 2 && queued == old(queued)
  ensures[C12] one: len(queued) <= len(old(queued)) + 1 && seqprefix(old(queued), queued)
  ensures[C09,C10,C12] ends: ends == old(ends)
}
func (*rtspclient.RtspClientSession).SendTeardown(s) (err) {
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq
  ensures[C09,C10,C12] gate: err == nil <==> old(s.rtspRequestInitial)
  ensures[C09,C10,C12] closed_gate: s.rtspRequestInitial == false
  ensures[C09,C10,C12] refused: err != nil ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes) && s.rtspContext.cseq == old(s.rtspContext.cseq)
  ensures[C09,C10] counts: err == nil && old(s.rtspContext.cseq) < 9223372036854775807 ==> s.rtspContext.cseq == old(s.rtspContext.cseq) + 1
  ensures[C09,C10,C12] idle: err == nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && s.tcpConn.status == old(s.tcpConn.status) && closes == old(closes)
  ensures[C09,C12] request: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status == 1 ==> queued == old(queued) + unit(
    teardown_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.sessionID, s.rtspContext.userAgent, (let a = s.rtspContext.authenicator in a == nil ? "" : auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, "TEARDOWN", s.rtspContext.rtspURL))))
  ensures[C09,C10,C12] stuck: err == nil && old(s.tcpConn.status) == 1 && s.tcpConn.status != 1 ==> s.tcpConn.status == 2 && queued == old(queued)
  ensures[C12] one: len(queued) <= len(old(queued)) + 1 && seqprefix(old(queued), queued)
  ensures[C09,C10,C12] ends: ends == old(ends)
}

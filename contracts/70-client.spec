// Starting, waiting for and ending a session.

// ---- URLs
spec url_ok(s bytes) bool
spec url_of(s bytes) url.URL
spec url_port(host bytes) bytes
spec url_hostname(host bytes) bytes
spec url_text(u url.URL) bytes
spec user_name(u ref) bytes
spec user_pass(u ref) bytes
spec hostport(h bytes, p bytes) bytes

extern url.Parse(s) (u, err) {
  ensures err == nil <==> url_ok(s)
  ensures err == nil ==> u != nil && *u == url_of(s)
}
extern (*url.URL).Port(u) (r) { ensures r == url_port(u.Host) }
extern (*url.URL).Hostname(u) (r) { ensures r == url_hostname(u.Host) }
extern (*url.URL).String(u) (r) { ensures r == url_text(*u) }
extern (*url.Userinfo).Username(u) (r) { ensures r == user_name(ref(u)) }
extern (*url.Userinfo).Password(u) (r, ok) { ensures r == user_pass(ref(u)) }
extern net.JoinHostPort(h, p) (r) { ensures r == hostport(h, p) }

spec dial_address(u url.URL) bytes = url_port(u.Host) == "" ? hostport(url_hostname(u.Host), "554") : u.Host

func (*rtspclient.RtspClientSession).ParsingURL(s, text) (err) {
  requires s != nil
  modifies s.address, s.username, s.password, s.rtspContext.rtspURL
  ensures[C11,C23] accepts: err == nil <==> url_ok(text)
  ensures[C11,C23] address: err == nil ==> s.address == dial_address(url_of(text))
  ensures[C11] user: err == nil ==> s.username == (url_of(text).User == nil ? old(s.username) : user_name(url_of(text).User))
  ensures[C11] password: err == nil ==> s.password == (url_of(text).User == nil ? old(s.password) : user_pass(url_of(text).User))
  ensures[C11] request_url: err == nil ==> s.rtspContext.rtspURL == url_text(with(url_of(text), "User", nil))
  ensures[C11,C23] refused: err != nil ==> s.address == old(s.address) && s.username == old(s.username) && s.password == old(s.password) &&
     s.rtspContext.rtspURL == old(s.rtspContext.rtspURL)
}

// ---- replies
// how many answers were taken from the queue, what they were, and the last one
ghost answers int
ghost replies seq(rtspclient.RtspResponseContext)
ghost lastanswer ref

recv rtspclient.RtspClientSession.rtspResponseQueue() (r, ok) {
  modifies answers, replies, lastanswer
  ensures answers == old(answers) + 1 && lastanswer == ref(r)
  ensures[C10] replies == (r == nil ? old(replies) : old(replies) + unit(*r))
}

func (*rtspclient.RtspClientSession).WaitRtspResponse(s) (r, err) {
  requires s != nil && s.tcpConn != nil
  modifies answers, replies, lastanswer, waited, s.rtspRequestInitial, s.tcpConn.status, queued, lent, ends, closes
  ensures[C10,C12] gate: s.rtspRequestInitial
  ensures[C02,C10,C12,C23] result: (r != nil && err == nil) || (r == nil && err != nil)
  ensures[C10,C12] once: answers == old(answers) || answers == old(answers) + 1
  ensures[C10,C12] reply: answers != old(answers) ==> ref(r) == lastanswer && s.tcpConn.status == old(s.tcpConn.status) && ends == old(ends) && closes == old(closes)
  ensures[C10,C12] timeout: answers == old(answers) ==> r == nil &&
     (old(s.tcpConn.status) == 1 ==> ends == old(ends) + 1 && closes == old(closes) || s.tcpConn.status == 2 && closes == old(closes) + 1)
  ensures[C10,C12] not_connected: old(s.tcpConn.status) != 1 ==> s.tcpConn.status == old(s.tcpConn.status) && ends == old(ends) && closes == old(closes)
  ensures[C12] limit: 0 <= s.timeoutSec && s.timeoutSec <= 9223372036 && answers != old(answers) ==> waited == s.timeoutSec * 1000000000
  ensures[C10,C12] silent: queued == old(queued)
  ensures[C10] answer: err == nil ==> replies == old(replies) + unit(*r) && s.tcpConn.status == old(s.tcpConn.status)
  ensures[C10] no_answer: err != nil ==> replies == old(replies)
}

func (*rtspclient.RtspClientSession).Close(s) {
  requires s != nil
  modifies answers, replies, lastanswer, waited, hashed, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq, queued, lent, ends, closes
  ensures[C12] never_connected: s.tcpConn == nil ==> queued == old(queued) && ends == old(ends) && closes == old(closes) && answers == old(answers) &&
     s.rtspRequestInitial == old(s.rtspRequestInitial)
  ensures[C12] idle: s.tcpConn != nil && old(s.tcpConn.status) != 1 ==> queued == old(queued) && ends == old(ends) && closes == old(closes) && answers == old(answers) && s.tcpConn.status == old(s.tcpConn.status)
  ensures[C12] teardown: queued == old(queued) || len(queued) == len(old(queued)) + 1 && seqprefix(old(queued), queued) && old(s.rtspRequestInitial) &&
     hasprefix(queued[len(old(queued))], "TEARDOWN ")
  ensures[C12] waits: answers == old(answers) || answers == old(answers) + 1
  ensures[C12] closes: s.tcpConn != nil && old(s.tcpConn.status) == 1 ==> ends > old(ends) || s.tcpConn.status == 2
  ensures[C12] reopened: s.tcpConn != nil && old(s.tcpConn.status) == 1 ==> s.rtspRequestInitial
}

// ---- the handshake

// the answer asks for the request to be repeated with credentials
spec redo(r rtspclient.RtspResponseContext, user bytes, pass bytes) bool = r.Status == 401 && user != "" && pass != ""
// the number of DESCRIBE requests, a answers having come before
def describes(rs seq(rtspclient.RtspResponseContext), a int, user bytes, pass bytes) int range 1..2 = len(rs) > a && redo(rs[a], user, pass) ? 2 : 1
spec absolute(u bytes) bool = len(u) >= 4 && (u[:4] == "rtsp" || u[:4] == "RTSP")
def track(base bytes, u bytes) bytes = absolute(u) ? u : base + "/" + u
// the answer to media i's SETUP is answer f+i
spec session_for(rs seq(rtspclient.RtspResponseContext), f int, i int) bytes = i <= 0 ? "" : rs[f+i-1].sessionID
def auth_of(none bool, kind int, user bytes, realm bytes, pass bytes, nonce bytes, method bytes, url bytes) bytes =
  none ? "" : auth_header(kind, user, realm, pass, nonce, method, url)

func (*rtspclient.RtspClientSession).sendRequest(s) (err) {
  requires s != nil && s.tcpConn != nil
  modifies queued, lent, waited, ends, closes, hashed, answers, replies, lastanswer, notes, s.rtspRequestInitial, s.tcpConn.status, s.rtspContext.cseq,
    s.sdpInfo, s.rtspContext.authenicator, s.rtspContext.sessionID, s.rtpChannelMap[*], s.RtpMediaMap[*]
  ensures[C10,C23] reported: s.eventHandle != nil ==> notes == old(notes) + unit(err == nil ? 1 : 2)
  // n requests, m answers, d DESCRIBEs; each request but the last was answered
  ensures[C10] requests: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n >= 1 && (m == n || m == n - 1) && queued[:q0] == old(queued) && replies[:a] == old(replies) && (m >= 1 ==> n >= d))
  ensures[C10] describe: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> queued[len(old(queued))] == describe_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.userAgent, s.rtspContext.bandwidth, "")
  ensures[C10] again: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     d == 2 ==> n >= 2 && queued[q0+1] == describe_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq) + 1, s.rtspContext.userAgent, s.rtspContext.bandwidth, (let c = s.rtspContext.authenicator in c == nil ? "" : auth_header(c.authenicatorType, c.username, c.realm, c.password, c.nonce, "DESCRIBE", s.rtspContext.rtspURL))))
  ensures[C10] medias: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n > d ==> s.sdpInfo != nil && n <= d + len(s.sdpInfo.Medias) + 1)
  ensures[C10] setups: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n > d ==> (forall j int :: {queued[j]} q0 + d <= j && j < q0 + d + imin(n - d, len(s.sdpInfo.Medias)) ==> queued[j] == (let i = j - q0 - d in
       setup_text(track(s.rtspContext.rtspURL, s.sdpInfo.Medias[i].TrackURL), old(s.rtspContext.cseq) + d + i, session_for(replies, a + d, i), 2*i, 2*i+1, s.rtspContext.setupHeaders, s.rtspContext.userAgent, s.rtspContext.bandwidth,
         (let c = s.rtspContext.authenicator in c == nil ? "" : auth_header(c.authenicatorType, c.username, c.realm, c.password, c.nonce, "SETUP", track(s.rtspContext.rtspURL, s.sdpInfo.Medias[i].TrackURL)))))))
  ensures[C10] registered: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n > d ==> (forall i int :: {s.sdpInfo.Medias[i]} 0 <= i && i < imin(n - d, len(s.sdpInfo.Medias)) ==>
       2*i in s.rtpChannelMap && 2*i in s.RtpMediaMap && s.RtpMediaMap[2*i] == s.sdpInfo.Medias[i]))
  ensures[C10] play: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n == d + len(s.sdpInfo.Medias) + 1 && n > d ==> queued[q0 + n - 1] == play_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq) + d + len(s.sdpInfo.Medias), session_for(replies, a + d, len(s.sdpInfo.Medias)), 0, 1, s.rtspContext.userAgent, s.rtspContext.bandwidth, (let c = s.rtspContext.authenicator in c == nil ? "" : auth_header(c.authenicatorType, c.username, c.realm, c.password, c.nonce, "PLAY", s.rtspContext.rtspURL))))
  // only answered requests are followed by others, and only when the answer was 200 (the first DESCRIBE's: 401, credentials at hand)
  ensures[C10] accepted: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     forall j int :: {replies[j]} a + d - 1 <= j && j < a + n - 1 ==> replies[j].Status == 200)
  ensures[C10] success: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 && err == nil ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     s.sdpInfo != nil && n == d + len(s.sdpInfo.Medias) + 1 && m == n && replies[a+m-1].Status == 200)
  ensures[C10] failure: old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 && err != nil ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     m == n - 1 || replies[a+m-1].Status != 200 || m == d && s.sdpInfo == nil)
  ensures[C10] credentials: s.rtspContext.authenicator != nil ==> (let a = len(old(replies)) in let c = s.rtspContext.authenicator in
     len(replies) > a && redo(replies[a], s.username, s.password) && c.username == s.username && c.password == s.password &&
     ref(c) == (replies[a].digestAuthenticator != nil ? replies[a].digestAuthenticator : replies[a].basicAuthenticator))
  ensures[C10] no_credentials: s.rtspContext.authenicator == nil && len(replies) > len(old(replies)) ==> (let r = replies[len(old(replies))] in
     !redo(r, s.username, s.password) || r.digestAuthenticator == nil && r.basicAuthenticator == nil)
  loop 1 {
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     n == d + $i && m == n && s.rtspContext.cseq == old(s.rtspContext.cseq) + n && queued[:q0] == old(queued) && replies[:a] == old(replies))
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> queued[len(old(queued))] == describe_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq), s.rtspContext.userAgent, s.rtspContext.bandwidth, "")
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     d == 2 ==> n >= 2 && queued[q0+1] == describe_text(s.rtspContext.rtspURL, old(s.rtspContext.cseq) + 1, s.rtspContext.userAgent, s.rtspContext.bandwidth, (let c = s.rtspContext.authenicator in c == nil ? "" : auth_header(c.authenicatorType, c.username, c.realm, c.password, c.nonce, "DESCRIBE", s.rtspContext.rtspURL))))
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in s.rtspContext.sessionID == session_for(replies, a + d, $i))
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     (forall j int :: {queued[j]} q0 + d <= j && j < q0 + d + $i ==> queued[j] == (let i = j - q0 - d in
       setup_text(track(s.rtspContext.rtspURL, s.sdpInfo.Medias[i].TrackURL), old(s.rtspContext.cseq) + d + i, session_for(replies, a + d, i), 2*i, 2*i+1, s.rtspContext.setupHeaders, s.rtspContext.userAgent, s.rtspContext.bandwidth,
         (let c = s.rtspContext.authenicator in c == nil ? "" : auth_header(c.authenicatorType, c.username, c.realm, c.password, c.nonce, "SETUP", track(s.rtspContext.rtspURL, s.sdpInfo.Medias[i].TrackURL)))))))
    invariant[C10] forall i int :: {s.sdpInfo.Medias[i]} 0 <= i && i < $i ==>
       2*i in s.rtpChannelMap && 2*i in s.RtpMediaMap && s.RtpMediaMap[2*i] == s.sdpInfo.Medias[i]
    invariant[C10] old(s.rtspRequestInitial) && s.tcpConn.status == 1 && old(s.rtspContext.cseq) < 4611686018427387904 ==> (let q0 = len(old(queued)) in let a = len(old(replies)) in let d = describes(replies, a, s.username, s.password) in let n = len(queued) - q0 in let m = len(replies) - a in
     forall j int :: {replies[j]} a + d - 1 <= j && j < a + n ==> replies[j].Status == 200)
    invariant[C10] s.rtspContext.authenicator != nil ==> (let a = len(old(replies)) in let c = s.rtspContext.authenicator in
     len(replies) > a && redo(replies[a], s.username, s.password) && c.username == s.username && c.password == s.password &&
     ref(c) == (replies[a].digestAuthenticator != nil ? replies[a].digestAuthenticator : replies[a].basicAuthenticator))
    invariant[C10] s.rtspContext.authenicator == nil && len(replies) > len(old(replies)) ==> (let r = replies[len(old(replies))] in
     !redo(r, s.username, s.password) || r.digestAuthenticator == nil && r.basicAuthenticator == nil)
  }
}

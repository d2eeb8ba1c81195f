// RTSP replies and requests.

// ---- authentication challenges: parameters are name=value or name="value", separated by commas
spec auth_quoted(v bytes) bool = hasprefix(v, "\"")
spec auth_body(v bytes) bytes = auth_quoted(v) ? v[1:] : v
spec auth_end(v bytes) int = auth_quoted(v) ? sindex(v[1:], "\"") : sindex(v, ",")
spec auth_value(v bytes) bytes = auth_end(v) < 0 ? auth_body(v) : auth_body(v)[:auth_end(v)]
spec auth_tail(v bytes) bytes = auth_end(v) < 0 ? "" : auth_body(v)[auth_end(v)+1:]
spec auth_param(p bytes, name bytes) bytes =
  sindex(p, "=") < 0 ? "" :
  (trimset(p[:sindex(p, "=")], " ,") == name ? auth_value(p[sindex(p, "=")+1:]) : auth_param(auth_tail(p[sindex(p, "=")+1:]), name))
spec challenge_scheme(v bytes) bytes = let t = trimspace(v) in sindex(t, " ") < 0 ? t : t[:sindex(t, " ")]
spec challenge_params(v bytes) bytes = let t = trimspace(v) in sindex(t, " ") < 0 ? "" : t[sindex(t, " ")+1:]

func rtspclient.getAuthenticateParam(params, name) (r) {
  requires true
  ensures[C08] r == auth_param(params, name)
  loop 1 {
    invariant[C08] auth_param(params, name) == auth_param(old(params), name)
    decreases len(params)
  }
}
func rtspclient.parsingAuthenticate(v) (scheme, realm, nonce, stale) {
  requires true
  ensures[C08] scheme == challenge_scheme(v)
  ensures[C08] realm == auth_param(challenge_params(v), "realm")
  ensures[C08] nonce == auth_param(challenge_params(v), "nonce")
}

// ---- what the header lines say: n lines of ls, the last one with the name counts
spec session_of(ls seq(bytes), n int, dflt bytes) bytes =
  n <= 0 ? dflt :
  (is_header(ls[n-1], "SESSION") ?
     (let v = header_val(ls[n-1]) in trimspace(sindex(v, ";") < 0 ? v : v[:sindex(v, ";")])) : session_of(ls, n-1, dflt))
def is_challenge(l bytes, scheme bytes) bool =
  is_header(l, "WWW-AUTHENTICATE") && challenge_scheme(header_val(l)) == scheme
def realm_of(l bytes) bytes = auth_param(challenge_params(header_val(l)), "realm")
def nonce_of(l bytes) bytes = auth_param(challenge_params(header_val(l)), "nonce")
// last challenge of the scheme (-1: none)
spec challenge_of(ls seq(bytes), n int, scheme bytes) int range -1..281474976710656 =
  n <= 0 ? -1 : (is_challenge(ls[n-1], scheme) ? n-1 : challenge_of(ls, n-1, scheme))
spec accepted(m bytes) bool = len(m) >= 4 && is_rtsp(m) && sindex(m, "\r\n\r\n") >= 0 && rtsp_end(m) >= 12

func rtspclient.ParserRtspResponse(response, context) (err) {
  requires context != nil
  modifies context.*
  ensures[C01,C07,C08] accepts: err == nil <==> accepted(bytes(response))
  ensures[C07] status: err == nil ==> context.Status == atoi(bytes(response)[9:12])
  ensures[C01,C07] length: err == nil ==> context.contentLength == clen(bytes(response))
  ensures[C07] session: err == nil ==> context.sessionID == session_of(header_lines(bytes(response)), len(header_lines(bytes(response))), old(context.sessionID))
  ensures[C07] body: err == nil && rtsp_end(bytes(response)) + clen(bytes(response)) <= len(response) ==>
     context.content == bytes(response)[rtsp_end(bytes(response)):rtsp_end(bytes(response)) + clen(bytes(response))]
  ensures[C08] digest: err == nil ==> (let ls = header_lines(bytes(response)) in let k = challenge_of(ls, len(ls), "Digest") in
     k >= 0 ==> context.digestAuthenticator != nil && context.digestAuthenticator.authenicatorType == 1 &&
       context.digestAuthenticator.realm == realm_of(ls[k]) &&
       context.digestAuthenticator.nonce == nonce_of(ls[k]))
  ensures[C08] basic: err == nil ==> (let ls = header_lines(bytes(response)) in let k = challenge_of(ls, len(ls), "Basic") in
     k >= 0 ==> context.basicAuthenticator != nil && context.basicAuthenticator.authenicatorType == 2 &&
       context.basicAuthenticator.realm == realm_of(ls[k]))
  ensures[C08] none: let ls = header_lines(bytes(response)) in 
     (challenge_of(ls, len(ls), "Digest") < 0 ==> context.digestAuthenticator == old(context.digestAuthenticator)) &&
     (challenge_of(ls, len(ls), "Basic") < 0 ==> context.basicAuthenticator == old(context.basicAuthenticator))
  ensures err == nil ==> context.contentLength >= 0
  loop 1 {
    invariant context.contentLength >= 0
    invariant[C01,C07] context.contentLength == clen_of(header_lines(bytes(response)), $i)
    invariant[C07] context.sessionID == session_of(header_lines(bytes(response)), $i, old(context.sessionID))
    invariant[C07] rtsp_end(bytes(response)) + context.contentLength <= len(response) ==>
       context.content == bytes(response)[rtsp_end(bytes(response)):rtsp_end(bytes(response)) + context.contentLength]
    invariant[C08] let ls = header_lines(bytes(response)) in let k = challenge_of(ls, $i, "Digest") in
       k >= 0 ==> context.digestAuthenticator != nil && context.digestAuthenticator.authenicatorType == 1 &&
       context.digestAuthenticator.realm == realm_of(ls[k]) &&
       context.digestAuthenticator.nonce == nonce_of(ls[k])
    invariant[C08] let ls = header_lines(bytes(response)) in let k = challenge_of(ls, $i, "Basic") in
       k >= 0 ==> context.basicAuthenticator != nil && context.basicAuthenticator.authenicatorType == 2 &&
       context.basicAuthenticator.realm == realm_of(ls[k])
    invariant[C08] let ls = header_lines(bytes(response)) in 
       (challenge_of(ls, $i, "Digest") < 0 ==> context.digestAuthenticator == old(context.digestAuthenticator)) &&
       (challenge_of(ls, $i, "Basic") < 0 ==> context.basicAuthenticator == old(context.basicAuthenticator))
  }
}

// ---- answering a challenge
spec md5(s bytes) bytes
spec hexenc(s bytes) bytes
spec base64enc(enc ref, s bytes) bytes
ghost hashed map(ref, bytes)

extern md5.Sum(b) (r) {
  ensures bytes(r[:]) == md5(old(bytes(b)))
}

extern md5.New() (h) {
  modifies hashed
  ensures h != nil && hashed == mapupd(old(hashed), ref(h), "")
}
extern hash.Hash.Write(h, p) (n, err) {
  modifies hashed
  ensures hashed == mapupd(old(hashed), ref(h), old(hashed)[ref(h)] + bytes(p))
}
extern hash.Hash.Sum(h, b) (r) {
  ensures fresh(r)
  ensures bytes(r) == bytes(b) + md5(hashed[ref(h)])
}
extern hex.EncodeToString(b) (r) { ensures r == hexenc(bytes(b)) }
extern (*base64.Encoding).EncodeToString(e, b) (r) { ensures r == base64enc(ref(e), bytes(b)) }

func rtspclient.MD5StringToString(s) (r) {
  requires true
  modifies hashed
  ensures[C08,C09,C10,C12] md5hex: r == hexenc(md5(s))
}
spec digest_response(user bytes, realm bytes, pass bytes, nonce bytes, method bytes, url bytes) bytes =
  hexenc(md5(hexenc(md5(user + ":" + realm + ":" + pass)) + ":" + nonce + ":" + hexenc(md5(method + ":" + url))))
def auth_header(kind int, user bytes, realm bytes, pass bytes, nonce bytes, method bytes, url bytes) bytes =
  kind == 2 ? "Authorization: Basic " + base64enc(global("base64.StdEncoding"), user + ":" + pass) + "\r\n" :
  (kind == 1 ? "Authorization: Digest username=\"" + user + "\", realm=\"" + realm + "\", nonce=\"" + nonce + "\", uri=\"" + url +
     "\", response=\"" + digest_response(user, realm, pass, nonce, method, url) + "\"\r\n" : "")

func (*rtspclient.Authenticator).createAuthenticatorString(a, method, url) (r) {
  requires a != nil
  modifies hashed
  ensures[C08,C09,C10,C12] header: r == auth_header(a.authenicatorType, a.username, a.realm, a.password, a.nonce, method, url)
}

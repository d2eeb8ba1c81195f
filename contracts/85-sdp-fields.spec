// Encoding of fields: each Add method appends one line to the session.

spec dflt(v bytes, d bytes) bytes = v == "" ? d : v
def quad(b bytes, n int) bytes = n <= 1 ? itoa(b[0]) : quad(b, n-1) + "." + itoa(b[n-1])
spec ip_text(b bytes) bytes = to4(b) == "" ? toupper(ipstr(b)) : quad(to4(b), 4)
spec ip_kind(b bytes) bytes = b == "" ? "IP4" : to4(b) == "" ? "IP6" : "IP4"
func sdp.appendIPv4(dst, ip) (r) {
  requires len(ip) == 4
  modifies dst[*]
  ensures bytes(r) == old(bytes(dst)) + quad(bytes(ip), 4)
  ensures disjoint(r, ip)
  loop 1 {
    invariant bytes(dst) == old(bytes(dst)) + quad(bytes(ip), i)
    or
    invariant bytes(dst) == old(bytes(dst)) + (i == 0 ? "" : quad(bytes(ip), i))
  }
}
// an address without a stated type: IPv6 if its first ':' comes before any '.', IPv4 if it has a '.', else what it parses to
spec addr_kind(a bytes, given bytes) bytes =
  given != "" ? given :
  ichar(a, ':') >= 0 && (ichar(a, '.') < 0 || ichar(a, ':') < ichar(a, '.')) ? "IP6" :
  ichar(a, '.') >= 0 ? "IP4" : ip_kind(parseip(a))
func sdp.getAddressType(addr, addressType) (r) {
  requires true
  ensures kind: r == addr_kind(addr, addressType)
  loop 1 { invariant ichar(addr[:$pos], ':') < 0 && ichar(addr[:$pos], '.') < 0 }
}
func sdp.appendJoinStrings(b, v) (r) {
  requires true
  modifies b[*]
  ensures bytes(r) == old(bytes(b)) + joined(bytes(v), len(v))
  loop 1 {
    invariant bytes(b) == old(bytes(b)) + joined(bytes(v), $i) + ($i > 0 && $i < len(v) ? " " : "")
    or
    invariant bytes(b) == old(bytes(b)) + joined(bytes(v), $i)
  }
}

spec field(t int, v bytes) seq(sdp.Line) = unit(mk("sdp.Line", t, v))
func (sdp.Session).AddRaw(s, k, v) (r) {
  requires true
  ensures[C20] line: bytes(r) == old(bytes(s)) + field(k, v)
}
func (sdp.Session).AddLine(s, t, v) (r) {
  requires true
  ensures[C20] line: bytes(r) == old(bytes(s)) + field(t, v)
}
func (sdp.Session).AddVersion(s, version) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('v', itoa(version))
}
func (sdp.Session).AddPhone(s, phone) (r) {
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('p', phone)
}
func (sdp.Session).AddEmail(s, email) (r) {
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('e', email)
}
func (sdp.Session).AddSessionName(s, name) (r) {
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('s', name)
}
func (sdp.Session).AddSessionInfo(s, info) (r) {
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('i', info)
}
func (sdp.Session).AddURI(s, uri) (r) {
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('u', uri)
}
spec conn_text(net bytes, kind bytes, ip bytes, ttl int, addresses int) bytes =
  dflt(net, "IN") + " " + (kind != "" ? kind : ip_kind(ip)) + " " + ip_text(ip) + (ttl > 0 ? "/" + itoa(ttl) : "") + (addresses > 0 ? "/" + itoa(addresses) : "")
func (sdp.Session).AddConnectionData(s, data) (r) {
  requires true
  ensures[C15,C18,C20] line: data.IP == nil || len(data.IP) > 0 || data.AddressType != "" ==> bytes(r) == old(bytes(s)) + field('c', conn_text(data.NetworkType, data.AddressType, old(bytes(data.IP)), data.TTL, data.Addresses))
}
func (sdp.Session).AddConnectionDataIP(s, ip) (r) {
  requires true
  ensures[C15,C20] line: ip == nil || len(ip) > 0 ==> bytes(r) == old(bytes(s)) + field('c', conn_text("", "", old(bytes(ip)), 0, 0))
}
spec origin_text(o sdp.Origin) bytes =
  o.Username + " " + itoa(o.SessionID) + " " + itoa(o.SessionVersion) + " " + dflt(o.NetworkType, "IN") + " " + addr_kind(o.Address, o.AddressType) + " " + o.Address
func (sdp.Session).AddOrigin(s, o) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('o', origin_text(o))
}
func (sdp.Session).AddTiming(s, start, end) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('t', itoa(ntp_of(start)) + " " + itoa(ntp_of(end)))
}
func (sdp.Session).AddTimingNTP(s, start, end) (r) {
  requires true
  ensures[C20] line: bytes(r) == old(bytes(s)) + field('t', itoa(ntp_of(time_of(start))) + " " + itoa(ntp_of(time_of(end))))
}
func (sdp.Session).AddAttribute(s, attribute, values) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('a', attribute + (len(values) > 0 ? ":" + joined(old(bytes(values)), len(values)) : ""))
}
func (sdp.Session).AddFlag(s, attribute) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('a', attribute)
}
func (sdp.Session).AddBandwidth(s, t, bandwidth) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('b', t + ":" + itoa(bandwidth))
}
spec offsets_text(v seq(int), n int, compact bool) bytes = n <= 0 ? "" : offsets_text(v, n-1, compact) + (n > 1 ? " " : "") + interval(v[n-1], compact)
spec repeat_text(interval int, duration int, offsets seq(int), compact bool) bytes =
  interval(interval, compact) + " " + interval(duration, compact) + " " + offsets_text(offsets, len(offsets), compact)
func (sdp.Session).addRepeatTimes(s, compact, interval, duration, offsets) (r) {
  hide dec, compact, plainsec
  requires true
  ensures line: bytes(r) == old(bytes(s)) + field('r', repeat_text(interval, duration, old(bytes(offsets)), compact))
  loop 1 {
    invariant bytes(v) == interval(interval, compact) + " " + interval(duration, compact) + " " + offsets_text(bytes(offsets), $i, compact) + ($i > 0 && $i < len(offsets) ? " " : "")
    or
    invariant bytes(v) == interval(interval, compact) + " " + interval(duration, compact) + " " + offsets_text(bytes(offsets), $i, compact)
  }
}
func (sdp.Session).AddRepeatTimes(s, interval, duration, offsets) (r) {
  requires true
  ensures[C15,C20] line: bytes(r) == old(bytes(s)) + field('r', repeat_text(interval, duration, old(bytes(offsets)), false))
}
func (sdp.Session).AddRepeatTimesCompact(s, interval, duration, offsets) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('r', repeat_text(interval, duration, old(bytes(offsets)), true))
}
spec media_text(m sdp.MediaDescription) bytes =
  m.Type + " " + itoa(m.Port) + (m.PortsNumber != 0 ? "/" + itoa(m.PortsNumber) : "") + " " + m.Protocol + " " + m.Format
func (sdp.Session).AddMediaDescription(s, m) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('m', media_text(m))
}
spec key_text(method bytes, key bytes) bytes = method + (key != "" ? ":" + key : "")
func (sdp.Session).AddEncryption(s, e) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('k', key_text(e.Method, e.Key))
}
func (sdp.Session).AddEncryptionKey(s, method, key) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('k', key_text(method, key))
}
func (sdp.Session).AddEncryptionMethod(s, method) (r) {
  requires true
  ensures[C15,C18,C20] line: bytes(r) == old(bytes(s)) + field('k', method)
}
spec zones_text(z seq(sdp.TimeZone), n int) bytes = n <= 0 ? "" : zones_text(z, n-1) + (n > 1 ? " " : "") + itoa(ntp_of(z[n-1].Start)) + " " + compact(z[n-1].Offset)
func (sdp.Session).AddTimeZones(s, zones) (r) {
  hide dec, compact
  requires true
  ensures[C18,C20] line: bytes(r) == old(bytes(s)) + field('z', zones_text(old(bytes(zones)), len(zones)))
  loop 1 {
    invariant bytes(v) == zones_text(bytes(zones), $i) + ($i > 0 && $i < len(zones) ? " " : "")
    or
    invariant bytes(v) == zones_text(bytes(zones), $i)
  }
}

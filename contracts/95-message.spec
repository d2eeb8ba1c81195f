// Whole messages: what Append writes, and what the lookups return.

// A loop over a map takes its keys in an order nobody knows, each key once. (The order is a function of the map here; no
// contract compares two loops over the same map.)
axiom attr_keys: forall m map(bytes,seq(bytes)), j int :: {mapkeys(m)[j]} 0 <= j && j < len(mapkeys(m)) ==> mapkeys(m)[j] in m && keyindex(m, mapkeys(m)[j]) == j
axiom attr_keys_all: forall m map(bytes,seq(bytes)), k bytes :: {keyindex(m, k)} k in m ==> 0 <= keyindex(m, k) && keyindex(m, k) < len(mapkeys(m)) && mapkeys(m)[keyindex(m, k)] == k
axiom bandwidth_keys: forall m map(bytes,int), j int :: {mapkeys(m)[j]} 0 <= j && j < len(mapkeys(m)) ==> mapkeys(m)[j] in m && keyindex(m, mapkeys(m)[j]) == j
axiom bandwidth_keys_all: forall m map(bytes,int), k bytes :: {keyindex(m, k)} k in m ==> 0 <= keyindex(m, k) && keyindex(m, k) < len(mapkeys(m)) && mapkeys(m)[keyindex(m, k)] == k

def ip_same(a bytes, b bytes) bool = len(a) == len(b) ? a == b : len(a) == 4 && len(b) == 16 ? to4(b) == a : len(a) == 16 && len(b) == 4 && to4(a) == b
extern (net.IP).Equal(ip, x) (r) { ensures r <==> ip_same(bytes(ip), bytes(x)) }
spec conn_blank(c sdp.ConnectionData) bool = c.NetworkType == "" && c.AddressType == "" && c.IP == "" && c.TTL == 0 && c.Addresses == 0
func (sdp.ConnectionData).Blank(c) (r) {
  requires true
  ensures[C18] blank: r <==> c.NetworkType == "" && c.AddressType == "" && len(c.IP) == 0 && c.TTL == 0 && c.Addresses == 0
}
func (sdp.Encryption).Blank(e) (r) {
  requires true
  ensures[C18] blank: r <==> e.Method == "" && e.Key == ""
}

// ---- the lines of a message
spec none_or(c bool, l seq(sdp.Line)) seq(sdp.Line) = c ? l : none("seq(sdp.Line)")
spec value_lines(k bytes, v seq(bytes), n int) seq(sdp.Line) = n <= 0 ? none("seq(sdp.Line)") : value_lines(k, v, n-1) + (v[n-1] == "" ? field('a', k) : field('a', k + ":" + v[n-1]))
local lemma[C18] joined_one: forall v seq(bytes) :: {joined(v, 1)} joined(v, 1) == v[0]
spec attr_lines(a map(bytes,seq(bytes)), n int) seq(sdp.Line) =
  n <= 0 ? none("seq(sdp.Line)") : attr_lines(a, n-1) + value_lines(mapkeys(a)[n-1], a[mapkeys(a)[n-1]], len(a[mapkeys(a)[n-1]]))
spec bandwidth_lines(b map(bytes,int), n int) seq(sdp.Line) =
  n <= 0 ? none("seq(sdp.Line)") : bandwidth_lines(b, n-1) + field('b', mapkeys(b)[n-1] + ":" + itoa(b[mapkeys(b)[n-1]]))
func (sdp.Session).appendAttributes(s, attrs) (r) {
  using joined_one
  requires true
  ensures[C18] lines: bytes(r) == old(bytes(s)) + attr_lines(old(attrs), len(mapkeys(old(attrs))))
  loop 1 { invariant bytes(s) == old(bytes(s)) + attr_lines(attrs, $i) }
  loop 2 { invariant bytes(s) == old(bytes(s)) + attr_lines(attrs, $i1) + value_lines(k, bytes(v), $i) }
}
spec timing_lines(t seq(sdp.Timing), n int) seq(sdp.Line) =
  n <= 0 ? none("seq(sdp.Line)") : timing_lines(t, n-1) + field('t', itoa(ntp_of(t[n-1].Start)) + " " + itoa(ntp_of(t[n-1].End))) +
    none_or(len(t[n-1].Offsets) > 0, field('r', repeat_text(t[n-1].Repeat, t[n-1].Active, t[n-1].Offsets, true)))
spec conn_lines(c sdp.ConnectionData) seq(sdp.Line) = none_or(!conn_blank(c), field('c', conn_text(c.NetworkType, c.AddressType, c.IP, c.TTL, c.Addresses)))
spec key_lines(e sdp.Encryption) seq(sdp.Line) = none_or(e.Method != "" || e.Key != "", field('k', key_text(e.Method, e.Key)))
// an address is written by its kind or its bytes
spec conn_stated(c sdp.ConnectionData) bool = conn_blank(c) || c.IP != "" || c.AddressType != ""
spec stated(m seq(sdp.Media)) bool = forall i int :: {m[i]} 0 <= i && i < len(m) ==> conn_stated(m[i].Connection)
def media_head(m sdp.Media) seq(sdp.Line) = field('m', media_text(m.Description)) + none_or(m.Title != "", field('i', m.Title)) + conn_lines(m.Connection)
spec one_media(m sdp.Media) seq(sdp.Line) =
  media_head(m) +
  bandwidth_lines(m.Bandwidths, len(mapkeys(m.Bandwidths))) + key_lines(m.Encryption) + attr_lines(m.Attributes, len(mapkeys(m.Attributes)))
spec all_medias(m seq(sdp.Media), n int) seq(sdp.Line) = n <= 0 ? none("seq(sdp.Line)") : all_medias(m, n-1) + one_media(m[n-1])
def head_lines(m sdp.Message) seq(sdp.Line) =
  field('v', itoa(m.Version)) + field('o', origin_text(m.Origin)) + field('s', m.Name) +
  none_or(m.Info != "", field('i', m.Info)) + none_or(m.URI != "", field('u', m.URI)) + none_or(m.Email != "", field('e', m.Email)) +
  none_or(m.Phone != "", field('p', m.Phone)) + conn_lines(m.Connection)
def session_lines(m sdp.Message) seq(sdp.Line) =
  head_lines(m) + bandwidth_lines(m.Bandwidths, len(mapkeys(m.Bandwidths))) + timing_lines(m.Timing, len(m.Timing)) +
  none_or(len(m.TZAdjustments) > 0, field('z', zones_text(m.TZAdjustments, len(m.TZAdjustments)))) + key_lines(m.Encryption) + attr_lines(m.Attributes, len(mapkeys(m.Attributes)))
func (*sdp.Message).Append(m, s) (r) {
  requires m != nil
  ensures[C18] lines: old(conn_stated(m.Connection) && stated(m.Medias)) ==> bytes(r) == old(bytes(s)) + old(session_lines(*m)) + all_medias(old(bytes(m.Medias)), len(old(bytes(m.Medias))))
  loop 1 { cut invariant old(conn_stated(m.Connection) && stated(m.Medias)) ==> bytes(s) == old(bytes(s)) + old(head_lines(*m)) + bandwidth_lines(old(m.Bandwidths), $i) }
  loop 2 { cut invariant old(conn_stated(m.Connection) && stated(m.Medias)) ==> bytes(s) == old(bytes(s)) + old(head_lines(*m)) + bandwidth_lines(old(m.Bandwidths), len(mapkeys(old(m.Bandwidths)))) + timing_lines(old(bytes(m.Timing)), $i) }
  loop 3 { cut invariant old(conn_stated(m.Connection) && stated(m.Medias)) ==> bytes(s) == old(bytes(s)) + old(session_lines(*m)) + all_medias(old(bytes(m.Medias)), $i) }
  loop 4 { invariant old(conn_stated(m.Connection) && stated(m.Medias)) ==> bytes(s) == old(bytes(s)) + old(session_lines(*m)) + all_medias(old(bytes(m.Medias)), $i3) + media_head(mm) + bandwidth_lines(mm.Bandwidths, $i) }
}

// ---- looking things up, and adding attributes
func (sdp.Attributes).Values(a, attribute) (r) {
  requires true
  ensures[C18] values: bytes(r) == (attribute in a ? a[attribute] : none("seq(bytes)"))
}
func (sdp.Attributes).Flag(a, flag) (r) {
  requires true
  ensures[C18] present: r <==> flag in a && len(a[flag]) > 0
}
func (sdp.Message).Flag(m, flag) (r) {
  requires true
  ensures[C18] present: r <==> flag in m.Attributes && len(m.Attributes[flag]) > 0
}
func (sdp.Message).Attribute(m, attribute) (r) {
  requires true
  ensures[C18] first: r == attr_value(m.Attributes, attribute)
}
func (sdp.Message).Start(m) (r) {
  requires true
  ensures[C18] start: len(m.Timing) > 0 ==> r == m.Timing[0].Start
  ensures[C18] none: len(m.Timing) == 0 ==> r == zero("time.Time")
}
func (sdp.Message).End(m) (r) {
  requires true
  ensures[C18] end: len(m.Timing) > 0 ==> r == m.Timing[0].End
  ensures[C18] none: len(m.Timing) == 0 ==> r == zero("time.Time")
}
func (*sdp.Message).AddAttribute(m, k, v) {
  requires m != nil
  modifies m.Attributes, m.Attributes[*]
  ensures[C18] added: m.Attributes == attr_add(old(m.Attributes), k, v)
}
func (*sdp.Message).AddFlag(m, f) {
  requires m != nil
  modifies m.Attributes, m.Attributes[*]
  ensures[C18] added: m.Attributes == attr_add(old(m.Attributes), f, "")
}
func (*sdp.Media).AddFlag(m, f) {
  requires m != nil
  modifies m.Attributes, m.Attributes[*]
  ensures[C18] added: m.Attributes == attr_add(old(m.Attributes), f, "")
}
func (*sdp.Media).AddAttribute(m, k, values) {
  requires m != nil
  modifies m.Attributes, m.Attributes[*]
  ensures[C18] added: m.Attributes == attr_add(old(m.Attributes), k, joined(old(bytes(values)), len(values)))
}
func (*sdp.Media).Flag(m, f) (r) {
  requires m != nil
  ensures[C18] present: r <==> f in m.Attributes && len(m.Attributes[f]) > 0
}
func (*sdp.Media).Attribute(m, k) (r) {
  requires m != nil
  ensures[C18] first: r == attr_value(m.Attributes, k)
}

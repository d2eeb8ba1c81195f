// Values compared and printed.

func (sdp.Line).Equal(l, b) (r) {
  requires true
  ensures[C25] equal: r <==> l.Type == b.Type && bytes(l.Value) == bytes(b.Value)
}
func (sdp.Session).Equal(s, b) (r) {
  requires true
  ensures[C25] equal: r <==> bytes(s) == bytes(b)
  loop 1 {
    invariant bytes(s)[:$i] == bytes(b)[:$i]
  }
}
func (sdp.Origin).Equal(o, b) (r) {
  requires true
  ensures[C25] equal: r <==> o == b
}
func (sdp.Encryption).Equal(e, b) (r) {
  requires true
  ensures[C18,C25] equal: r <==> e == b
}
func (sdp.ConnectionData).Equal(c, b) (r) {
  requires true
  ensures[C18,C25] equal: r <==> c.NetworkType == b.NetworkType && c.AddressType == b.AddressType && ip_same(bytes(c.IP), bytes(b.IP)) && c.TTL == b.TTL && c.Addresses == b.Addresses
}
// equality of addresses, an IPv4 address in either of its two forms: an equivalence
spec v4prefix() bytes
local axiom to4_mapped: forall b bytes :: {to4(b)} len(b) == 16 && to4(b) != "" ==> b == v4prefix() + to4(b)
local axiom to4_width: forall b bytes :: {to4(b)} len(to4(b)) == 0 || len(to4(b)) == 4
local lemma[C25] same_symmetric using none: forall a bytes, b bytes :: {ip_same(a, b)} ip_same(a, b) <==> ip_same(b, a)
local lemma[C25] same_reflexive using none: forall a bytes :: {ip_same(a, a)} ip_same(a, a)
local lemma[C25] same_transitive using to4_mapped, to4_width: forall a bytes, b bytes, c bytes :: {ip_same(a, b), ip_same(b, c)} ip_same(a, b) && ip_same(b, c) && hint(to4(a)) && hint(to4(c)) ==> ip_same(a, c)

// the address printed is the one that is encoded
local axiom ip4_string: forall b bytes :: {ipstr(b)} to4(b) != "" ==> toupper(ipstr(b)) == quad(to4(b), 4)
func (sdp.ConnectionData).ConnectionAddress(c) (r) {
  requires true
  using ip4_string
  ensures[C25] text: r == ip_text(bytes(c.IP)) + (c.TTL > 0 ? "/" + itoa(c.TTL) : "") + (c.Addresses > 0 ? "/" + itoa(c.Addresses) : "")
}
func (sdp.ConnectionData).String(c) (r) {
  requires true
  ensures[C25] text: c.NetworkType != "" && c.AddressType != "" ==> r == conn_text(c.NetworkType, c.AddressType, bytes(c.IP), c.TTL, c.Addresses)
}

// the names of the line types; any other type prints as itself
spec type_name(t int) bytes = t == 'a' ? "attribute" : t == 'p' ? "phone" : t == 'e' ? "email" : t == 'c' ? "connection data" : t == 'u' ? "uri" :
  t == 's' ? "session name" : t == 'o' ? "origin" : t == 'v' ? "version" : t == 't' ? "timing" : t == 'b' ? "bandwidth" : t == 'i' ? "session info" :
  t == 'r' ? "repeat times" : t == 'z' ? "time zones" : t == 'k' ? "encryption keys" : t == 'm' ? "media description" : ""
func (sdp.Type).String(t) (r) {
  requires true
  ensures[C25] name: type_name(t) != "" ==> r == type_name(t)
}

// Session descriptions (RFC 4566): package sdp.

extern errors.Wrap(err, msg) (e) { ensures e == nil <==> err == nil }
extern errors.Wrapf(err, format, args) (e) { ensures e == nil <==> err == nil }
extern errors.Errorf(format, args) (e) { ensures e != nil }

// ---- characters
spec utf8enc(r int) bytes
spec firstrune(s bytes) int range 0..1114111
axiom utf8_ascii: forall r int :: {utf8enc(r)} 0 <= r && r < 128 ==> utf8enc(r) == byte(r)
axiom utf8_len: forall r int :: {utf8enc(r)} 1 <= len(utf8enc(r)) && len(utf8enc(r)) <= 4
axiom rune_ascii: forall s bytes :: {firstrune(s)} len(s) > 0 && s[0] < 128 ==> firstrune(s) == s[0]
spec rune_ok(r int) bool = 0 <= r && r < 55296 || 57344 <= r && r <= 1114111
axiom utf8_rune: forall r int :: {utf8enc(r)} rune_ok(r) ==> firstrune(utf8enc(r)) == r
axiom utf8_high: forall r int, i int :: {utf8enc(r)[i]} r >= 128 && 0 <= i && i < len(utf8enc(r)) ==> utf8enc(r)[i] >= 128
extern bytes.IndexRune(s, r) (k) {
  requires 0 <= r && r < 128
  ensures k == ichar(bytes(s), r)
}
extern utf8.DecodeRune(s) (r, n) {
  ensures r == firstrune(bytes(s))
  ensures 0 <= n && n <= len(s)
}
extern utf8.EncodeRune(p, r) (n) {
  requires len(p) >= 4
  modifies p[*]
  ensures 1 <= n && n <= 4
  ensures bytes(p)[:n] == utf8enc(r)
}
axiom trim_nl: forall s bytes :: {trimspace(s + "\n")} trimspace(s + "\n") == trimspace(s)
extern bytes.TrimSpace(s) (r) {
  ensures bytes(r) == trimspace(bytes(s))
  ensures len(r) <= len(s)
}
// occurrences of c in the first n bytes
spec cnt(s bytes, c int, n int) int range 0..281474976710656 = n <= 0 ? 0 : cnt(s, c, n-1) + (s[n-1] == c ? 1 : 0)
lemma cnt_mono induction n: forall s bytes, c int, i int, n int :: {cnt(s, c, i), cnt(s, c, n)} i <= n ==> cnt(s, c, i) <= cnt(s, c, n)
lemma cnt_at using cnt_mono: forall s bytes, c int, i int, n int :: {cnt(s, c, i), cnt(s, c, n), s[i]} 0 <= i && i < n && s[i] == c && hint(cnt(s, c, i+1)) ==> cnt(s, c, i) + 1 <= cnt(s, c, n)
extern bytes.Count(s, sep) (r) {
  requires len(sep) == 1
  ensures r == cnt(bytes(s), sep[0], len(s))
}
extern bytes.Split(s, t) (r) {
  requires len(t) > 0
  ensures fresh(r)
  ensures bytes(r) == splitall(bytes(s), bytes(t))
  ensures len(r) >= 1
}
extern bytes.Join(s, sep) (r) {
  ensures fresh(r)
}
spec parseuint(s bytes) int range 0..18446744073709551615
spec parseuint_ok(s bytes, bits int) bool
local axiom parseuint8: forall s bytes :: {parseuint_ok(s, 8)} parseuint_ok(s, 8) <==> number(s) && decval(s, len(s)) < 256
local axiom parseuint64: forall s bytes :: {parseuint_ok(s, 64)} parseuint_ok(s, 64) <==> number(s) && decval(s, len(s)) < 18446744073709551616
local axiom parseuint_value: forall s bytes, b int :: {parseuint(s), parseuint_ok(s, b)} parseuint_ok(s, b) ==> parseuint(s) == decval(s, len(s))
local lemma[C15,C16] dec_number using dec_plain, dec_digits, dec_len opaque: forall n int :: {dec(n)} 0 <= n ==> number(dec(n))
lemma[C15,C16] itoa_parse8 using itoa_dec, itoa_neg, dec_number, dec_digits, parseuint8, parseuint_value opaque: forall n int :: {parseuint_ok(itoa(n), 8)} {parseuint(itoa(n)), parseuint_ok(itoa(n), 8)} 0 <= n && n < 256 && hint(dec(n)) ==> parseuint_ok(itoa(n), 8) && parseuint(itoa(n)) == n
lemma[C15,C16] itoa_parse64 using itoa_dec, itoa_neg, dec_number, dec_digits, parseuint64, parseuint_value opaque: forall n int :: {parseuint_ok(itoa(n), 64)} {parseuint(itoa(n)), parseuint_ok(itoa(n), 64)} 0 <= n && n < 18446744073709551616 && hint(dec(n)) ==> parseuint_ok(itoa(n), 64) && parseuint(itoa(n)) == n
extern strconv.ParseUint(s, base, bits) (n, err) {
  requires base == 10
  ensures err == nil <==> parseuint_ok(s, bits)
  ensures err == nil ==> n == parseuint(s) && (bits == 8 ==> n <= 255)
}
// addresses: 4 or 16 bytes, an IPv4 address in 16 bytes after ten zeros and two 255
spec parseip(s bytes) bytes
axiom parseip_len: forall s bytes :: {parseip(s)} len(parseip(s)) == 0 || len(parseip(s)) == 16
extern net.ParseIP(s) (ip) {
  ensures bytes(ip) == parseip(s)
  ensures ip == nil <==> parseip(s) == ""
}
spec zeros(b bytes, n int) bool = forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == 0
def to4(b bytes) bytes = len(b) == 4 ? b : len(b) == 16 && zeros(b, 10) && b[10] == 255 && b[11] == 255 ? b[12:16] : ""
extern (net.IP).To4(ip) (r) {
  ensures bytes(r) == to4(bytes(ip))
  ensures r == nil <==> to4(bytes(ip)) == ""
}
spec ipstr(b bytes) bytes
extern (net.IP).String(ip) (r) { ensures r == ipstr(bytes(ip)) }

// ---- lines
spec line_ok(b bytes) bool = ichar(b, '=') >= 0 && ichar(b, '=') + 1 < len(b)
spec line_of(b bytes) sdp.Line = mk("sdp.Line", firstrune(b[:ichar(b, '=')]), b[ichar(b, '=')+1:])
func (*sdp.Line).Decode(l, b) (err) {
  requires l != nil
  modifies l.Type, l.Value, l.Value[*]
  ensures[C14,C19] verdict: err == nil <==> line_ok(bytes(b))
  ensures[C14,C19] type: err == nil ==> l.Type == firstrune(bytes(b)[:ichar(bytes(b), '=')])
  ensures[C14,C19] value: err == nil ==> bytes(l.Value) == old(bytes(l.Value)) + bytes(b)[ichar(bytes(b), '=')+1:]
  ensures[C14,C19] line: err == nil && old(bytes(l.Value)) == "" ==> mk("sdp.Line", l.Type, bytes(l.Value)) == line_of(bytes(b))
  ensures[C14,C19] refused: err != nil ==> l.Type == old(l.Type) && bytes(l.Value) == old(bytes(l.Value))
  ensures[C14,C19] private: disjoint(l.Value, b)
}
spec line_text(l sdp.Line) bytes = utf8enc(l.Type) + "=" + bytes(l.Value)
func (sdp.Line).AppendTo(l, b) (r) {
  requires true
  ensures[C14,C19] text: bytes(r) == old(bytes(b)) + utf8enc(l.Type) + "=" + bytes(l.Value)
  ensures[C14,C19] private: disjoint(r, l.Value)
  modifies b[*]
}
// the lines of a session, one per line of text
spec text(s seq(sdp.Line), n int) bytes = n <= 0 ? "" : text(s, n-1) + (n > 1 ? "\n" : "") + line_text(s[n-1])
func (sdp.Session).AppendTo(s, b) (r) {
  requires true
  modifies b[*]
  ensures[C14,C19] text: bytes(r) == old(bytes(b)) + text(bytes(s), len(s))
  loop 1 {
    invariant[C14,C19] bytes(b) == old(bytes(b)) + text(bytes(s), $i) + ($i > 0 && $i < len(s) ? "\n" : "")
    or
    invariant[C14,C19] bytes(b) == old(bytes(b)) + text(bytes(s), $i)
  }
}

// where the line that starts at p ends, and what it holds
spec line_end(b bytes, p int) int = ichar(b[p:], '\n') < 0 ? len(b) : p + ichar(b[p:], '\n') + 1
spec line_at(b bytes, p int) bytes = trimspace(b[p:line_end(b, p)])
// the lines of the text from p on, up to the first one that is refused
spec lines(b bytes, p int) seq(sdp.Line) =
  p >= len(b) ? none("seq(sdp.Line)") :
  line_at(b, p) == "" ? lines(b, line_end(b, p)) :
  !line_ok(line_at(b, p)) ? none("seq(sdp.Line)") :
  unit(line_of(line_at(b, p))) + lines(b, line_end(b, p))
spec lines_ok(b bytes, p int) bool =
  p >= len(b) ? true :
  line_at(b, p) == "" ? lines_ok(b, line_end(b, p)) :
  line_ok(line_at(b, p)) && lines_ok(b, line_end(b, p))

func (*sdp.sliceScanner).Scan(s) (r) {
  requires s != nil && 0 <= s.pos && s.pos <= s.end && s.end <= len(s.v)
  modifies s.pos, s.end, s.v, s.line
  ensures r ==> s.pos >= 0 && s.pos <= s.end && s.end <= len(s.v) && s.end > old(s.end)
  ensures r ==> bytes(s.v) == old(bytes(s.v))
  ensures[C14,C19] found: r ==> s.pos < len(s.v) && s.end == line_end(bytes(s.v), s.pos) && bytes(s.line) == line_at(bytes(s.v), s.pos) && len(s.line) > 0
  ensures[C14,C19] skipped: r ==> lines(bytes(s.v), s.pos) == lines(bytes(s.v), old(s.end)) && lines_ok(bytes(s.v), s.pos) == lines_ok(bytes(s.v), old(s.end))
  ensures[C14,C19] finished: !r ==> lines(old(bytes(s.v)), old(s.end)) == none("seq(sdp.Line)") && lines_ok(old(bytes(s.v)), old(s.end))
  loop 1 {
    invariant 0 <= s.pos && s.pos <= s.end && s.end <= len(s.v) && s.end >= old(s.end)
    invariant bytes(s.v) == old(bytes(s.v))
    invariant[C14,C19] lines(bytes(s.v), s.end) == lines(bytes(s.v), old(s.end)) && lines_ok(bytes(s.v), s.end) == lines_ok(bytes(s.v), old(s.end))
    decreases len(s.v) - s.end
  }
}
func sdp.DecodeSession(b, s) (r, err) {
  requires true
  ensures[C13] ends: true
  ensures[C14,C19] verdict: err == nil <==> lines_ok(bytes(b), 0)
  ensures[C14,C19] lines: bytes(r) == old(bytes(s)) + lines(bytes(b), 0)
  ensures[C14,C19] private: disjoint(r, b)
  loop 1 {
    invariant 0 <= scanner.pos && scanner.pos <= scanner.end && scanner.end <= len(scanner.v)
    invariant len(scanner.v) == len(b) && bytes(scanner.v) == bytes(b)
    invariant[C14,C19] err == nil
    invariant[C14,C19] bytes(s) + lines(bytes(b), scanner.end) == old(bytes(s)) + lines(bytes(b), 0)
    invariant[C14,C19] lines_ok(bytes(b), scanner.end) == lines_ok(bytes(b), 0)
    invariant[C14,C19] line.Value == nil
    decreases len(scanner.v) - scanner.end
    or // the value is set anew for every line
    invariant 0 <= scanner.pos && scanner.pos <= scanner.end && scanner.end <= len(scanner.v)
    invariant len(scanner.v) == len(b) && bytes(scanner.v) == bytes(b)
    invariant[C14,C19] err == nil
    invariant[C14,C19] bytes(s) + lines(bytes(b), scanner.end) == old(bytes(s)) + lines(bytes(b), 0)
    invariant[C14,C19] lines_ok(bytes(b), scanner.end) == lines_ok(bytes(b), 0)
    decreases len(scanner.v) - scanner.end
  }
}

// decoding the encoded lines gives the lines back
spec line_wf(l sdp.Line) bool = rune_ok(l.Type) && l.Type != '=' && l.Type != '\n' && len(bytes(l.Value)) > 0 && ichar(bytes(l.Value), '\n') < 0 &&
  trimspace(line_text(l)) == line_text(l)
spec lines_wf(s seq(sdp.Line), n int) bool = n <= 0 ? true : lines_wf(s, n-1) && line_wf(s[n-1])
def line_start(s seq(sdp.Line), k int) int = k <= 0 ? 0 : len(text(s, k)) + 1
local lemma[C14] wf_each induction n using none: forall s seq(sdp.Line), k int, n int :: {lines_wf(s, n), s[k]} 0 <= k && k < n && lines_wf(s, n) ==> line_wf(s[k])
local lemma[C14] text_prefix induction m using none: forall s seq(sdp.Line), k int, m int :: {text(s, k), text(s, m)} 0 <= k && k <= m ==> prefix(text(s, k), text(s, m))
local lemma[C14] enc_nochar using none: forall r int, c int :: {ichar(utf8enc(r), c)} 0 <= r && c < 128 && r != c ==> ichar(utf8enc(r), c) < 0
local lemma[C14] ichar_cat using none: forall a bytes, b bytes, c int :: {ichar(a + b, c)} ichar(a, c) < 0 && hint(a[ichar(a + b, c)]) && hint(b[ichar(a + b, c) - len(a)]) && hint((a + b)[len(a) + ichar(b, c)]) ==> ichar(a + b, c) == (ichar(b, c) < 0 ? -1 : len(a) + ichar(b, c))
local lemma[C14] ichar_zero using none: forall s bytes, c int :: {ichar(s, c)} len(s) > 0 && s[0] == c && hint(s[0]) ==> ichar(s, c) == 0
local lemma[C14] line_nonl using enc_nochar, ichar_cat: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> ichar(line_text(l), '\n') < 0
local lemma[C14] line_eq using enc_nochar, ichar_cat, ichar_zero: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> ichar(line_text(l), '=') == len(utf8enc(l.Type))
local lemma[C14] line_good using line_eq: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> line_ok(line_text(l))
local lemma[C14] line_type using line_eq: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> line_text(l)[:ichar(line_text(l), '=')] == utf8enc(l.Type)
local lemma[C14] line_type1 using line_type: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> firstrune(line_text(l)[:ichar(line_text(l), '=')]) == l.Type
local lemma[C14] line_value using line_eq: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> line_text(l)[ichar(line_text(l), '=')+1:] == bytes(l.Value)
local lemma[C14] line_back using line_type1, line_value: forall l sdp.Line :: {line_text(l)} line_wf(l) ==> line_of(line_text(l)) == l
local lemma[C14] line_pos using none: forall s seq(sdp.Line), k int, j int :: {text(s, k), text(s, j)} 0 <= k && j == k + 1 ==>
  line_start(s, k) + len(line_text(s[k])) == len(text(s, j)) && text(s, j)[line_start(s, k):len(text(s, j))] == line_text(s[k]) && (k > 0 ==> text(s, j)[len(text(s, k))] == '\n')
local lemma[C14] prefix_sub using none: forall a bytes, b bytes, x int, y int :: {prefix(a, b), a[x:y]} prefix(a, b) && 0 <= x && x <= y && y <= len(a) ==> b[x:y] == a[x:y]
local lemma[C14] line_in_text using line_pos, prefix_sub, text_prefix: forall s seq(sdp.Line), k int, j int, n int :: {text(s, n), text(s, k), text(s, j)} 0 <= k && j == k + 1 && j <= n ==>
  text(s, n)[line_start(s, k):len(text(s, j))] == line_text(s[k]) && len(text(s, j)) <= len(text(s, n))
local lemma[C14] line_ends using line_pos, text_prefix: forall s seq(sdp.Line), k int, j int, n int :: {text(s, n), text(s, k), text(s, j)} 0 < k && j == k + 1 && k < n && hint(text(s, j)[len(text(s, k))]) ==> text(s, n)[len(text(s, k))] == '\n'
local lemma[C14] ichar_at using none: forall s bytes, p int, q int, c int :: {ichar(s[p:], c), ichar(s[p:q], c)} 0 <= p && p <= q && q < len(s) && s[q] == c && ichar(s[p:q], c) < 0 && hint(s[p:][q-p]) && hint(s[p:q][ichar(s[p:], c)]) ==> ichar(s[p:], c) == q - p
local lemma[C14] line_end_is using line_nonl, line_in_text, line_ends, ichar_at, wf_each, text_prefix, line_pos: forall s seq(sdp.Line), k int, j int, n int :: {lines_wf(s, n), text(s, n), text(s, k), text(s, j)} 0 <= k && j == k + 1 && k < n && lines_wf(s, n) && hint(s[k]) && hint(text(s, j+1)) && hint(ichar(text(s, n)[line_start(s, k):len(text(s, j))], '\n')) ==>
  line_end(text(s, n), line_start(s, k)) == (j < n ? line_start(s, j) : len(text(s, n)))
local lemma[C14] sub_snoc using none: forall s bytes, p int, q int, r int :: {s[p:q], s[p:r] + "\n"} 0 <= p && p <= r && q == r + 1 && q <= len(s) && s[r] == '\n' ==> s[p:q] == s[p:r] + "\n"
local lemma[C14] trim_line using sub_snoc: forall s bytes, p int, q int, r int :: {trimspace(s[p:q]), s[p:r]} 0 <= p && p <= r && q == r + 1 && q <= len(s) && s[r] == '\n' && hint(s[p:r] + "\n") ==> trimspace(s[p:q]) == trimspace(s[p:r])
local lemma[C14] line_at_is using line_end_is, line_in_text, line_ends, trim_line, wf_each, line_pos: forall s seq(sdp.Line), k int, j int, n int :: {lines_wf(s, n), text(s, n), text(s, k), text(s, j)} 0 <= k && j == k + 1 && k < n && lines_wf(s, n) && hint(s[k]) && hint(text(s, n)[line_start(s, k):len(text(s, j))]) && hint(text(s, j+1)) ==>
  line_at(text(s, n), line_start(s, k)) == line_text(s[k])
local lemma[C14] no_lines using none: forall s bytes, p int :: {lines(s, p)} p >= len(s) ==> lines(s, p) == none("seq(sdp.Line)") && lines_ok(s, p)
local lemma[C14] step_ok using line_at_is, line_good, line_back, wf_each, line_in_text, line_pos opaque: forall s seq(sdp.Line), k int, j int, n int :: {lines_wf(s, n), lines(text(s, n), line_start(s, k)), s[j]} 0 <= k && j == k + 1 && k < n && lines_wf(s, n) && hint(s[k]) && hint(text(s, k)) && hint(text(s, j)) ==>
  line_start(s, k) < len(text(s, n)) && len(line_text(s[k])) > 0 && line_at(text(s, n), line_start(s, k)) == line_text(s[k]) && line_ok(line_text(s[k])) && line_of(line_text(s[k])) == s[k]
local lemma[C14] lines_step using none: forall b bytes, p int, q int, l sdp.Line :: {lines(b, p), lines(b, q), line_text(l)} p < len(b) && q == line_end(b, p) && line_at(b, p) == line_text(l) && line_text(l) != "" && line_ok(line_text(l)) && line_of(line_text(l)) == l ==>
  lines(b, p) == unit(l) + lines(b, q) && lines_ok(b, p) == lines_ok(b, q)
local lemma[C14] step using step_ok, lines_step, line_end_is opaque: forall s seq(sdp.Line), k int, j int, n int :: {lines_wf(s, n), lines(text(s, n), line_start(s, k)), lines(text(s, n), line_start(s, j))} 0 <= k && j == k + 1 && j < n && lines_wf(s, n) && hint(s[k]) && hint(s[j]) && hint(text(s, k)) && hint(text(s, j)) && hint(line_text(s[k])) ==>
  lines(text(s, n), line_start(s, k)) == unit(s[k]) + lines(text(s, n), line_start(s, j)) && lines_ok(text(s, n), line_start(s, k)) == lines_ok(text(s, n), line_start(s, j))
local lemma[C14] last using step_ok, lines_step, line_end_is, no_lines opaque: forall s seq(sdp.Line), k int, n int :: {lines_wf(s, n), lines(text(s, n), line_start(s, k))} 0 <= k && k + 1 == n && lines_wf(s, n) && hint(s[k]) && hint(text(s, k)) && hint(s[k+1]) && hint(lines(text(s, n), len(text(s, n)))) && hint(line_text(s[k])) ==>
  lines(text(s, n), line_start(s, k)) == unit(s[k]) && lines_ok(text(s, n), line_start(s, k))
local lemma[C14] decoded induction d using step, last opaque: forall s seq(sdp.Line), d int, k int, n int :: {lines_wf(s, n), lines(text(s, n), line_start(s, k)), s[d]} n == len(s) && 1 <= d && k + d == n && 0 <= k && lines_wf(s, n) && hint(s[d-1]) && hint(lines(text(s, n), line_start(s, k+1))) ==>
  lines(text(s, n), line_start(s, k)) == s[k:] && lines_ok(text(s, n), line_start(s, k))
local lemma[C14] round_trip using decoded, no_lines: forall s seq(sdp.Line), n int :: {lines_wf(s, n)} n == len(s) && lines_wf(s, n) && hint(text(s, 0)) && hint(lines(text(s, n), 0)) && hint(lines(text(s, n), line_start(s, 0))) && hint(s[n]) ==> lines(text(s, n), 0) == s && lines_ok(text(s, n), 0)
// ---- time
spec mktime(sec int) time.Time
spec unixsec(t time.Time) int range -9223372036854775808..9223372036854775807
spec iszero(t time.Time) bool
const zerosec = -62135596800
axiom time_sec: forall s int :: {mktime(s)} -9223372036854775808 <= s && s <= 9223372036854775807 ==> unixsec(mktime(s)) == s && (iszero(mktime(s)) <==> s == zerosec)
axiom time_zero: iszero(zero("time.Time")) && unixsec(zero("time.Time")) == zerosec
extern time.Unix(sec, nsec) (t) {
  requires nsec == 0
  ensures t == mktime(sec)
}
extern (time.Time).Unix(t) (r) { ensures r == unixsec(t) }
extern (time.Time).IsZero(t) (r) { ensures r == iszero(t) }

const ntpdelta = 2208988800
spec ntp_of(t time.Time) int = iszero(t) ? 0 : (unixsec(t) + ntpdelta) % 18446744073709551616
spec signed64(v int) int = v >= 9223372036854775808 ? v - 18446744073709551616 : v
spec time_of(v int) time.Time = v == 0 ? zero("time.Time") : mktime(signed64((v - ntpdelta) % 18446744073709551616))
func sdp.TimeToNTP(t) (r) {
  requires true
  ensures[C15,C16,C18,C20] ntp: r == ntp_of(t)
}
func sdp.NTPToTime(v) (t) {
  requires true
  ensures[C15,C16,C18,C20] time: t == time_of(v)
}
lemma[C15,C16] ntp_round_trip: forall v int :: {time_of(v)} 0 <= v && v < 9223372036854775808 ==> ntp_of(time_of(v)) == v

// ---- numbers
spec room(i int) int = i >= 20 ? 9223372036854775807 : i == 19 ? 922337203685477580 : i == 18 ? 92233720368547758 : i == 17 ? 9223372036854775 :
  i == 16 ? 922337203685477 : i == 15 ? 92233720368547 : i == 14 ? 9223372036854 : i == 13 ? 922337203685 : i == 12 ? 92233720368 : i == 11 ? 9223372036 :
  i == 10 ? 922337203 : i == 9 ? 92233720 : i == 8 ? 9223372 : i == 7 ? 922337 : i == 6 ? 92233 : i == 5 ? 9223 : i == 4 ? 922 : i == 3 ? 92 : i == 2 ? 9 : 0
func sdp.appendUint(dst, n) (r) {
  using itoa_dec, itoa_neg
  requires n >= 0
  modifies dst[*]
  ensures bytes(r) == old(bytes(dst)) + itoa(n)
  loop 1 {
    invariant 0 <= n && n <= room(i) && 2 <= i && i <= 20
    invariant dec(old(n)) == dec(n) + bytes(buf)[i:]
    decreases n
  }
}
func sdp.appendInt(v, i) (r) {
  using itoa_dec, itoa_neg
  requires true
  modifies v[*]
  ensures[C15,C16,C18,C20] decimal: bytes(r) == old(bytes(v)) + itoa(i)
}
func sdp.appendByte(v, i) (r) {
  using itoa_dec, itoa_neg
  requires true
  modifies v[*]
  ensures[C15,C16,C18,C20] decimal: bytes(r) == old(bytes(v)) + itoa(i)
}
func sdp.appendUint64(b, v) (r) {
  using itoa_dec, itoa_neg
  requires true
  modifies b[*]
  ensures[C15,C16,C18,C20] decimal: bytes(r) == old(bytes(b)) + itoa(v)
}

// ---- durations: a number of days, hours, minutes or seconds
spec unit_of(c int) int = c == 'd' ? 86400000000000 : c == 'h' ? 3600000000000 : c == 'm' ? 60000000000 : 1000000000
spec has_unit(s bytes) bool = len(s) > 0 && (s[len(s)-1] == 'd' || s[len(s)-1] == 'h' || s[len(s)-1] == 'm' || s[len(s)-1] == 's')
spec dur_number(s bytes) bytes = has_unit(s) ? s[:len(s)-1] : s
spec dur_unit(s bytes) int = has_unit(s) ? unit_of(s[len(s)-1]) : 1000000000
def dur_value(s bytes) int = s == "0" ? 0 : atoi(dur_number(s)) * dur_unit(s)
def dur_ok(s bytes) bool = s == "0" ? true : len(dur_number(s)) > 0 && atoi_ok(dur_number(s)) && -9223372036854775808 <= dur_value(s) && dur_value(s) <= 9223372036854775807
func sdp.decodeInterval(b, v) (err) {
  requires v != nil
  modifies *v
  ensures[C15,C16] verdict: err == nil <==> dur_ok(bytes(b))
  ensures[C15,C16] value: err == nil ==> *v == dur_value(bytes(b))
}
spec seconds(d int) opaque(Float)
spec truncfloat(f opaque(Float)) int range -9223372036854775808..9223372036854775807
// durations of whole seconds are written in the largest unit that divides them, or in seconds
def compact(d int) bytes = d == 0 ? "0" : d % 86400000000000 == 0 ? itoa(d / 86400000000000) + "d" : d % 3600000000000 == 0 ? itoa(d / 3600000000000) + "h" :
  d % 60000000000 == 0 ? itoa(d / 60000000000) + "m" : itoa(truncfloat(seconds(d)))
def plainsec(d int) bytes = d == 0 ? "0" : itoa(truncfloat(seconds(d)))
axiom whole_seconds: forall d int :: {seconds(d)} d % 1000000000 == 0 ==> truncfloat(seconds(d)) == d / 1000000000
extern (time.Duration).Seconds(d) (r) { ensures r == seconds(d) }
func sdp.appendIntervalCompact(b, d) (r) {
  requires true
  modifies b[*]
  ensures[C15,C16,C18,C20] text: bytes(r) == old(bytes(b)) + compact(d)
  loop 1 {
    invariant d != 0 && ($i > 0 ==> d % 86400000000000 != 0) && ($i > 1 ==> d % 3600000000000 != 0) && ($i > 2 ==> d % 60000000000 != 0)
  }
}
spec interval(d int, compact bool) bytes = compact ? compact(d) : plainsec(d)
func sdp.appendInterval(b, d, compact) (r) {
  requires true
  modifies b[*]
  ensures[C15,C16,C18,C20] text: bytes(r) == old(bytes(b)) + interval(d, compact)
}
local lemma[C15,C16] dec_last using dec_len: forall n int :: {dec(n)} 0 <= n && hint(dec(n/10)) ==> '0' <= dec(n)[len(dec(n))-1] && dec(n)[len(dec(n))-1] <= '9'
local lemma[C15,C16] itoa_last using itoa_dec, itoa_neg, dec_last, dec_len opaque: forall n int :: {itoa(n)} hint(dec(n)) && hint(dec(-n)) ==> len(itoa(n)) > 0 && '0' <= itoa(n)[len(itoa(n))-1] && itoa(n)[len(itoa(n))-1] <= '9'
local lemma[C15,C16] dec_zero using dec_len: forall n int :: {dec(n)} 0 <= n && hint(dec(n/10)) && dec(n) == "0" ==> n == 0
local lemma[C15,C16] itoa_zero using itoa_dec, itoa_neg, dec_zero, dec_len opaque: forall n int :: {itoa(n)} hint(dec(n)) && hint(dec(-n)) && itoa(n) == "0" ==> n == 0
local lemma[C15,C16] dur_plain using itoa_last, itoa_atoi, itoa_zero: forall n int :: {itoa(n)} -9223372036 <= n && n <= 9223372036 && hint(atoi(itoa(n))) && hint(atoi("0")) ==> dur_ok(itoa(n)) && dur_value(itoa(n)) == n * 1000000000
local lemma[C15,C16] dur_days using itoa_last, itoa_atoi: forall n int :: {itoa(n) + "d"} -9223372036854775808 <= n * 86400000000000 && n * 86400000000000 <= 9223372036854775807 && hint(atoi(itoa(n))) ==> dur_ok(itoa(n) + "d") && dur_value(itoa(n) + "d") == n * 86400000000000
local lemma[C15,C16] dur_hours using itoa_last, itoa_atoi: forall n int :: {itoa(n) + "h"} -9223372036854775808 <= n * 3600000000000 && n * 3600000000000 <= 9223372036854775807 && hint(atoi(itoa(n))) ==> dur_ok(itoa(n) + "h") && dur_value(itoa(n) + "h") == n * 3600000000000
local lemma[C15,C16] dur_minutes using itoa_last, itoa_atoi: forall n int :: {itoa(n) + "m"} -9223372036854775808 <= n * 60000000000 && n * 60000000000 <= 9223372036854775807 && hint(atoi(itoa(n))) ==> dur_ok(itoa(n) + "m") && dur_value(itoa(n) + "m") == n * 60000000000
lemma[C15,C16] dur_seconds using dur_plain: forall d int :: {plainsec(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d % 1000000000 == 0 ==> dur_ok(plainsec(d)) && dur_value(plainsec(d)) == d
local lemma[C15,C16] compact_day using none: forall d int :: {compact(d)} d != 0 && d % 86400000000000 == 0 ==> compact(d) == itoa(d / 86400000000000) + byte('d')
local lemma[C15,C16] dur_day using compact_day, dur_days opaque: forall d int :: {compact(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d != 0 && d % 86400000000000 == 0 && hint(itoa(d / 86400000000000)) && hint(itoa(d / 86400000000000) + "d") ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
local lemma[C15,C16] compact_hour using none: forall d int :: {compact(d)} d != 0 && d % 86400000000000 != 0 && d % 3600000000000 == 0 ==> compact(d) == itoa(d / 3600000000000) + byte('h')
local lemma[C15,C16] dur_hour using compact_hour, dur_hours opaque: forall d int :: {compact(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d != 0 && d % 86400000000000 != 0 && d % 3600000000000 == 0 && hint(itoa(d / 3600000000000)) && hint(itoa(d / 3600000000000) + "h") ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
local lemma[C15,C16] compact_minute using none: forall d int :: {compact(d)} d != 0 && d % 86400000000000 != 0 && d % 3600000000000 != 0 && d % 60000000000 == 0 ==> compact(d) == itoa(d / 60000000000) + byte('m')
local lemma[C15,C16] dur_minute using compact_minute, dur_minutes opaque: forall d int :: {compact(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d != 0 && d % 86400000000000 != 0 && d % 3600000000000 != 0 && d % 60000000000 == 0 && hint(itoa(d / 60000000000)) && hint(itoa(d / 60000000000) + "m") ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
local lemma[C15,C16] compact_second using none: forall d int :: {compact(d)} d != 0 && d % 86400000000000 != 0 && d % 3600000000000 != 0 && d % 60000000000 != 0 && d % 1000000000 == 0 && hint(truncfloat(seconds(d))) ==> compact(d) == itoa(d / 1000000000)
local lemma[C15,C16] dur_second using compact_second, dur_plain opaque: forall d int :: {compact(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d != 0 && d % 86400000000000 != 0 && d % 3600000000000 != 0 && d % 60000000000 != 0 && d % 1000000000 == 0 && hint(itoa(d / 1000000000)) ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
local lemma[C15,C16] dur_none: forall d int :: {compact(d)} d == 0 ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
lemma[C15,C16] dur_compact using dur_none, dur_day, dur_hour, dur_minute, dur_second opaque: forall d int :: {compact(d)} -9223372036854775808 <= d && d <= 9223372036854775807 && d % 1000000000 == 0 ==> dur_ok(compact(d)) && dur_value(compact(d)) == d
func sdp.decodeByte(dst) (r, err) {
  requires true
  ensures[C15,C16] verdict: err == nil <==> parseuint_ok(bytes(dst), 8)
  ensures[C15,C16,C17,C19] value: err == nil ==> r == parseuint(bytes(dst))
}
func sdp.parseNTP(v) (r, err) {
  requires true
  ensures[C15,C16] verdict: err == nil <==> parseuint_ok(bytes(v), 64)
  ensures[C15,C16] value: err == nil ==> r == parseuint(bytes(v))
}
// ---- what may come where: sections 0 session, 1 time, 2 media
typeinv sdp.Decoder(p): 0 <= p.pos && p.pos <= len(p.s) && 0 <= p.section && p.section <= 2

spec known_type(t int) bool = t == 'v' || t == 'o' || t == 's' || t == 'i' || t == 'u' || t == 'e' || t == 'p' || t == 'c' || t == 'b' ||
  t == 't' || t == 'r' || t == 'z' || t == 'k' || t == 'a' || t == 'm'
spec media_type(t int) bool = t == 'm' || t == 'i' || t == 'c' || t == 'b' || t == 'k' || t == 'a'
func sdp.isExpected(t, s, pos) (err) {
  requires 0 <= s && s <= 2 && 0 <= pos
  ensures err == nil ==> known_type(t)
  ensures[C17,C19] media: err == nil && s == 2 ==> media_type(t)
  decreases s == 0 ? (pos < 10 ? 4 : 2) : (s == 1 ? 3 : (pos != 0 ? 1 : 0))
  loop 1 { invariant true }
}
// the sub-fields of a value: what stands between the separators c in its first n bytes
spec fld(s bytes, c int, k int, n int) bytes = n <= 0 ? "" : s[n-1] != c && cnt(s, c, n-1) == k ? fld(s, c, k, n-1) + byte(s[n-1]) : fld(s, c, k, n-1)
def nfields(s bytes, c int) int = cnt(s, c, len(s)) + 1
def part(s bytes, c int, k int) bytes = fld(s, c, k, len(s))
// no separator at the start or next to another one
spec single(s bytes, n int) bool = n <= 0 ? true : single(s, n-1) && !(s[n-1] == ' ' && (n == 1 || s[n-2] == ' '))
lemma[C15] single_each induction n: forall s bytes, i int, n int :: {single(s, n), s[i]} 0 <= i && i < n && single(s, n) ==> !(s[i] == ' ' && (i == 0 || s[i-1] == ' '))
func (*sdp.Decoder).subfields(d) (r, err) {
  helper
  requires d != nil
  ensures err == nil ==> len(r) >= 1
  ensures[C15] accepted: single(bytes(d.v), len(d.v)) ==> err == nil
  ensures[C15,C16,C17,C19] count: err == nil ==> len(r) == nfields(bytes(d.v), ' ')
  ensures[C15,C16,C17,C19] parts: err == nil ==> forall k int :: {r[k]} 0 <= k && k < len(r) ==> bytes(r[k]) == part(bytes(d.v), ' ', k)
  loop 1 {
    invariant subField == cnt(bytes(d.v), ' ', $i)
    invariant[C15] single(bytes(d.v), $i) && (hitSpace <==> $i == 0 || d.v[$i-1] == ' ')
    invariant[C15,C16,C17,C19] forall k int :: {result[k]} 0 <= k && k < len(result) ==> bytes(result[k]) == fld(bytes(d.v), ' ', k, $i)
  }
}
// a name, and after ':' its value
spec kv_ok(v bytes) bool = ichar(v, ':') < 0 || ichar(v, ':') + 1 < len(v)
spec kv_name(v bytes) bytes = ichar(v, ':') < 0 ? v : v[:ichar(v, ':')]
spec kv_value(v bytes) bytes = ichar(v, ':') < 0 ? "" : v[ichar(v, ':')+1:]
func (*sdp.Decoder).decodeKV(d) (k, v, err) {
  helper
  requires d != nil
  ensures[C15] alone: ichar(bytes(d.v), ':') < 0 ==> err == nil && k == bytes(d.v) && v == ""
  ensures[C15] pair: ichar(bytes(d.v), ':') >= 0 && ichar(bytes(d.v), ':') + 1 < len(d.v) ==> err == nil && k == bytes(d.v)[:ichar(bytes(d.v), ':')] && v == bytes(d.v)[ichar(bytes(d.v), ':')+1:]
  ensures[C17,C19] name: err == nil ==> k == kv_name(bytes(d.v)) && v == kv_value(bytes(d.v))
  loop 1 {
    invariant isValue <==> ichar(bytes(d.v), ':') >= 0 && ichar(bytes(d.v), ':') < $i
    invariant bytes(key) == bytes(d.v)[:(isValue ? ichar(bytes(d.v), ':') : $i)]
    invariant bytes(value) == (isValue ? bytes(d.v)[ichar(bytes(d.v), ':')+1:$i] : "")
  }
}
// connection data: network type, address type, address[/[ttl/]number]
spec conn_base(v bytes) bytes = part(part(v, ' ', 2), '/', 0)
spec conn_first(v bytes) bytes = part(part(v, ' ', 2), '/', 1)
spec conn_second(v bytes) bytes = part(part(v, ' ', 2), '/', 2)
spec conn_v4(v bytes) bool = to4(parseip(conn_base(v))) != ""
spec conn_numbers(v bytes) bool = conn_second(v) != "" ? parseuint_ok(conn_first(v), 8) && parseuint_ok(conn_second(v), 8) : conn_first(v) != "" ? parseuint_ok(conn_first(v), 8) : true
def conn_ok(v bytes) bool = cnt(v, ' ', len(v)) == 2 && part(v, ' ', 0) != "" && part(v, ' ', 1) != "" && part(v, ' ', 2) != "" &&
  cnt(part(v, ' ', 2), '/', len(part(v, ' ', 2))) <= 2 && (conn_second(v) != "" ==> conn_v4(v)) && conn_numbers(v)
def conn_ttl(v bytes) int = conn_second(v) != "" || conn_first(v) != "" && conn_v4(v) ? parseuint(conn_first(v)) : 0
def conn_addresses(v bytes) int = conn_second(v) != "" ? parseuint(conn_second(v)) : conn_first(v) != "" && !conn_v4(v) ? parseuint(conn_first(v)) : 0
spec conn_is(c sdp.ConnectionData, o sdp.ConnectionData, v bytes) bool = c.NetworkType == part(v, ' ', 0) && c.AddressType == part(v, ' ', 1) && bytes(c.IP) == parseip(conn_base(v)) &&
  (o.TTL == 0 ==> c.TTL == conn_ttl(v)) && (o.Addresses == 0 ==> c.Addresses == conn_addresses(v))
spec conn_step(o sdp.ConnectionData, v bytes) sdp.ConnectionData = mk("sdp.ConnectionData", part(v, ' ', 0), part(v, ' ', 1), parseip(conn_base(v)),
  (conn_second(v) != "" || conn_first(v) != "" && conn_v4(v) ? parseuint(conn_first(v)) : o.TTL), (conn_second(v) != "" ? parseuint(conn_second(v)) : conn_first(v) != "" && !conn_v4(v) ? parseuint(conn_first(v)) : o.Addresses))
func (*sdp.Decoder).decodeConnectionData(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies m.Connection, d.m.Connection
  ensures[C15] accepted: d.section != 1 && conn_ok(bytes(d.v)) ==> err == nil
  ensures[C15] session: d.section == 0 && conn_ok(bytes(d.v)) ==> conn_is(m.Connection, old(m.Connection), bytes(d.v))
  ensures[C15] media: d.section == 2 && conn_ok(bytes(d.v)) ==> conn_is(d.m.Connection, old(d.m.Connection), bytes(d.v))
  ensures[C17,C19] media_line: d.section == 2 && err == nil ==> d.m.Connection == conn_step(old(d.m.Connection), bytes(d.v)) && m.Connection == old(m.Connection)
  ensures[C17,C19] session_line: d.section == 0 && err == nil ==> m.Connection == conn_step(old(m.Connection), bytes(d.v)) && d.m.Connection == old(d.m.Connection)
  ensures[C16] numbers: d.section != 1 && err == nil && cnt(bytes(d.v), ' ', len(d.v)) == 2 && cnt(part(bytes(d.v), ' ', 2), '/', len(part(bytes(d.v), ' ', 2))) <= 2 ==> conn_numbers(bytes(d.v))
  loop 1 {
    invariant 0 <= subField && subField <= $i
    invariant[C15,C16,C17,C19] subField == cnt(bytes(d.v), ' ', $i)
    invariant[C15,C16,C17,C19] bytes(netType) == fld(bytes(d.v), ' ', 0, $i) && bytes(addressType) == fld(bytes(d.v), ' ', 1, $i) && bytes(connectionAddress) == fld(bytes(d.v), ' ', 2, $i)
  }
  loop 2 {
    invariant 0 <= subField && subField <= $i
    invariant[C15,C16,C17,C19] subField == cnt(bytes(connectionAddress), '/', $i)
    invariant[C15,C16,C17,C19] bytes(base) == fld(bytes(connectionAddress), '/', 0, $i) && bytes(first) == fld(bytes(connectionAddress), '/', 1, $i) && bytes(second) == fld(bytes(connectionAddress), '/', 2, $i)
  }
}
spec timing_ok(v bytes) bool = cnt(v, ' ', len(v)) == 1 && parseuint_ok(part(v, ' ', 0), 64) && parseuint_ok(part(v, ' ', 1), 64)
func (*sdp.Decoder).decodeTimingField(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies m.Timing, m.Timing[*]
  ensures[C15] accepted: timing_ok(bytes(d.v)) ==> err == nil
  ensures[C16] refused: err == nil && cnt(bytes(d.v), ' ', len(d.v)) == 1 ==> timing_ok(bytes(d.v))
  ensures[C15] value: err == nil && timing_ok(bytes(d.v)) ==> len(m.Timing) == old(len(m.Timing)) + 1 &&
    m.Timing[len(m.Timing)-1].Start == time_of(parseuint(part(bytes(d.v), ' ', 0))) && m.Timing[len(m.Timing)-1].End == time_of(parseuint(part(bytes(d.v), ' ', 1)))
  ensures[C15] kept: err == nil ==> bytes(m.Timing)[:old(len(m.Timing))] == old(bytes(m.Timing))
  loop 1 {
    invariant[C15,C16] cnt(bytes(d.v), ' ', $i) == (isEndV ? 1 : 0)
    invariant[C15,C16] bytes(startV) == fld(bytes(d.v), ' ', 0, $i) && bytes(endV) == fld(bytes(d.v), ' ', 1, $i)
  }
}
spec repeat_ok(v bytes) bool = single(v, len(v)) && nfields(v, ' ') >= 3 && (forall k int :: {part(v, ' ', k)} 0 <= k && k < nfields(v, ' ') ==> dur_ok(part(v, ' ', k)))
func (*sdp.Decoder).decodeRepeatTimes(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies m.Timing[*]
  ensures[C15] accepted: old(len(m.Timing)) > 0 && repeat_ok(bytes(d.v)) ==> err == nil
  ensures[C15] interval: err == nil && repeat_ok(bytes(d.v)) ==> m.Timing[len(m.Timing)-1].Repeat == dur_value(part(bytes(d.v), ' ', 0)) && m.Timing[len(m.Timing)-1].Active == dur_value(part(bytes(d.v), ' ', 1))
  ensures[C15] offsets: err == nil && repeat_ok(bytes(d.v)) && old(len(m.Timing[len(m.Timing)-1].Offsets)) == 0 ==> (let o = bytes(m.Timing[len(m.Timing)-1].Offsets) in
    len(o) == nfields(bytes(d.v), ' ') - 2 && forall k int :: {o[k]} 0 <= k && k < len(o) ==> o[k] == dur_value(part(bytes(d.v), ' ', k + 2)))
  ensures[C15] times: err == nil ==> m.Timing[len(m.Timing)-1].Start == old(m.Timing[len(m.Timing)-1].Start) && m.Timing[len(m.Timing)-1].End == old(m.Timing[len(m.Timing)-1].End)
  ensures[C15] kept: bytes(m.Timing)[:len(m.Timing)-1] == old(bytes(m.Timing)[:len(m.Timing)-1])
  ensures[C16] refused: err == nil ==> forall k int :: {part(bytes(d.v), ' ', k)} 0 <= k && k < nfields(bytes(d.v), ' ') ==> dur_ok(part(bytes(d.v), ' ', k))
  loop 1 {
    invariant[C15] len(t.Offsets) == old(len(m.Timing[len(m.Timing)-1].Offsets)) + $i
    invariant[C15] old(len(m.Timing[len(m.Timing)-1].Offsets)) == 0 ==> forall k int :: {t.Offsets[k]} 0 <= k && k < $i ==> t.Offsets[k] == dur_value(part(bytes(d.v), ' ', k + 2))
    invariant[C16] forall k int :: {part(bytes(d.v), ' ', k)} 2 <= k && k < $i + 2 ==> dur_ok(part(bytes(d.v), ' ', k))
  }
}
func (*sdp.Decoder).decodeTimeZoneAdjustments(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies m.TZAdjustments, m.TZAdjustments[*]
  ensures[C16] refused: err == nil ==> forall k int :: {part(bytes(d.v), ' ', k)} 0 <= k && k < nfields(bytes(d.v), ' ') ==> (k % 2 == 0 ? parseuint_ok(part(bytes(d.v), ' ', k), 64) : dur_ok(part(bytes(d.v), ' ', k)))
  loop 1 { 
    invariant 0 <= i && i % 2 == 0
    invariant[C16] forall k int :: {part(bytes(d.v), ' ', k)} 0 <= k && k < i ==> (k % 2 == 0 ? parseuint_ok(part(bytes(d.v), ' ', k), 64) : dur_ok(part(bytes(d.v), ' ', k)))
    decreases len(p) - i
  }
}
// the sub-fields k to j-1 as they stand in the value
spec parts(v bytes, k int, j int) bytes = j <= k ? "" : parts(v, k, j-1) + (j > k + 1 ? " " : "") + part(v, ' ', j-1)
lemma[C15,C17,C19] join_parts induction n: forall q seq(bytes), v bytes, k int, n int, j int :: {joined(q, n), parts(v, k, j)} j == k + n && 0 <= n && n <= len(q) && (forall i int :: {q[i]} 0 <= i && i < n ==> q[i] == part(v, ' ', k + i)) && hint(parts(v, k, j-1)) && hint(q[n-1]) ==> joined(q, n) == parts(v, k, j)
def media_ok(v bytes) bool = single(v, len(v)) && nfields(v, ' ') >= 4 && (let p = splitall(part(v, ' ', 1), "/") in atoi_ok(p[0]) && (len(p) > 1 ==> atoi_ok(p[1])))
spec desc_of(v bytes) sdp.MediaDescription = let p = splitall(part(v, ' ', 1), "/") in mk("sdp.MediaDescription", part(v, ' ', 0), atoi(p[0]), (len(p) > 1 ? atoi(p[1]) : 0), part(v, ' ', 2), parts(v, 3, nfields(v, ' ')))
func (*sdp.Decoder).decodeMediaDescription(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies d.m.Description
  ensures[C15] accepted: media_ok(bytes(d.v)) ==> err == nil
  ensures[C15] texts: media_ok(bytes(d.v)) ==> d.m.Description.Type == part(bytes(d.v), ' ', 0) && d.m.Description.Protocol == part(bytes(d.v), ' ', 2) 
  ensures[C15] format: media_ok(bytes(d.v)) ==> d.m.Description.Format == parts(bytes(d.v), 3, nfields(bytes(d.v), ' '))
  ensures[C17,C19] line: err == nil ==> d.m.Description == desc_of(bytes(d.v))
  ensures[C15] ports: media_ok(bytes(d.v)) ==> (let p = splitall(part(bytes(d.v), ' ', 1), "/") in d.m.Description.Port == atoi(p[0]) && d.m.Description.PortsNumber == (len(p) > 1 ? atoi(p[1]) : 0))
}
def origin_ok(v bytes) bool = single(v, len(v)) && nfields(v, ' ') == 6 && atoi_ok(part(v, ' ', 1)) && atoi_ok(part(v, ' ', 2))
func (*sdp.Decoder).decodeOrigin(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies m.Origin
  ensures[C15] accepted: origin_ok(bytes(d.v)) ==> err == nil
  ensures[C15] texts: origin_ok(bytes(d.v)) ==> m.Origin.Username == part(bytes(d.v), ' ', 0) && m.Origin.NetworkType == part(bytes(d.v), ' ', 3) && m.Origin.AddressType == part(bytes(d.v), ' ', 4) && m.Origin.Address == part(bytes(d.v), ' ', 5)
  ensures[C15] numbers: origin_ok(bytes(d.v)) ==> m.Origin.SessionID == atoi(part(bytes(d.v), ' ', 1)) && m.Origin.SessionVersion == atoi(part(bytes(d.v), ' ', 2))
}
spec bandwidth_ok(v bytes) bool = kv_ok(v) && (kv_name(v) == "CT" || kv_name(v) == "AS") && atoi_ok(kv_value(v)) && kv_value(v) != ""
func (*sdp.Decoder).decodeBandwidth(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies d.m.Bandwidths, m.Bandwidths, d.m.Bandwidths[*], m.Bandwidths[*]
  ensures[C17,C19] media_line: d.section == 2 && err == nil ==> d.m.Bandwidths == mapupd(old(d.m.Bandwidths), kv_name(bytes(d.v)), atoi(kv_value(bytes(d.v)))) && m.Bandwidths == old(m.Bandwidths)
  ensures[C17,C19] session_line: d.section != 2 && err == nil ==> m.Bandwidths == mapupd(old(m.Bandwidths), kv_name(bytes(d.v)), atoi(kv_value(bytes(d.v)))) && d.m.Bandwidths == old(d.m.Bandwidths)
  ensures[C15] accepted: bandwidth_ok(bytes(d.v)) ==> err == nil
  ensures[C15] media: d.section == 2 && bandwidth_ok(bytes(d.v)) ==> kv_name(bytes(d.v)) in d.m.Bandwidths && d.m.Bandwidths[kv_name(bytes(d.v))] == atoi(kv_value(bytes(d.v)))
  ensures[C15] session: d.section != 2 && bandwidth_ok(bytes(d.v)) ==> kv_name(bytes(d.v)) in m.Bandwidths && m.Bandwidths[kv_name(bytes(d.v))] == atoi(kv_value(bytes(d.v)))
}
spec attr_add(a map(bytes,seq(bytes)), k bytes, v bytes) map(bytes,seq(bytes)) = mapupd(a, k, (k in a ? a[k] : none("seq(bytes)")) + unit(v))
func (*sdp.Decoder).decodeAttribute(d, m) (err) {
  helper
  requires d != nil && m != nil
  modifies d.m.Attributes, m.Attributes, d.m.Attributes[*], m.Attributes[*]
  ensures[C17,C19] media_line: d.section == 2 && err == nil ==> d.m.Attributes == attr_add(old(d.m.Attributes), kv_name(bytes(d.v)), kv_value(bytes(d.v))) && m.Attributes == old(m.Attributes)
  ensures[C17,C19] session_line: d.section != 2 && err == nil ==> m.Attributes == attr_add(old(m.Attributes), kv_name(bytes(d.v)), kv_value(bytes(d.v))) && d.m.Attributes == old(d.m.Attributes)
  ensures[C15] accepted: kv_ok(bytes(d.v)) ==> err == nil
  ensures[C15] media: d.section == 2 && kv_ok(bytes(d.v)) ==> kv_name(bytes(d.v)) in d.m.Attributes && bytes(d.m.Attributes[kv_name(bytes(d.v))]) == old(kv_name(bytes(d.v)) in d.m.Attributes ? bytes(d.m.Attributes[kv_name(bytes(d.v))]) : none("seq(bytes)")) + unit(kv_value(bytes(d.v)))
  ensures[C15] session: d.section != 2 && kv_ok(bytes(d.v)) ==> kv_name(bytes(d.v)) in m.Attributes && bytes(m.Attributes[kv_name(bytes(d.v))]) == old(kv_name(bytes(d.v)) in m.Attributes ? bytes(m.Attributes[kv_name(bytes(d.v))]) : none("seq(bytes)")) + unit(kv_value(bytes(d.v)))
}
// what a line of a media section does to its media
def media_step(x sdp.Media, t int, v bytes) sdp.Media =
  t == 'm' ? with(x, "Description", desc_of(v)) :
  t == 'i' ? with(x, "Title", v) :
  t == 'c' ? with(x, "Connection", conn_step(x.Connection, v)) :
  t == 'b' ? with(x, "Bandwidths", mapupd(x.Bandwidths, kv_name(v), atoi(kv_value(v)))) :
  t == 'k' ? with(x, "Encryption", mk("sdp.Encryption", kv_name(v), kv_value(v))) :
  t == 'a' ? with(x, "Attributes", attr_add(x.Attributes, kv_name(v), kv_value(v))) : x
// the same five of the session
spec level(info bytes, c sdp.ConnectionData, a map(bytes,seq(bytes)), e sdp.Encryption, b map(bytes,int)) sdp.Media = mk("sdp.Media", info, zero("sdp.MediaDescription"), c, a, e, b)
spec has_media(s seq(sdp.Line), a int, n int) bool = n <= a ? false : s[n-1].Type == 'm' || has_media(s, a, n-1)
// a line stands in the last media section that was opened, or in the session
spec media_of(s seq(sdp.Line), a int, n int) sdp.Media = n <= a ? zero("sdp.Media") : media_step(media_of(s, a, n-1), s[n-1].Type, bytes(s[n-1].Value))
spec medias_of(s seq(sdp.Line), a int, n int) seq(sdp.Media) =
  n <= a ? none("seq(sdp.Media)") :
  s[n-1].Type == 'm' ? medias_of(s, a, n-1) + unit(media_step(zero("sdp.Media"), 'm', bytes(s[n-1].Value))) :
  !has_media(s, a, n-1) ? medias_of(s, a, n-1) :
  upd(medias_of(s, a, n-1), len(medias_of(s, a, n-1)) - 1, media_step(medias_of(s, a, n-1)[len(medias_of(s, a, n-1))-1], s[n-1].Type, bytes(s[n-1].Value)))
spec top_of(x sdp.Media, s seq(sdp.Line), a int, n int) sdp.Media = n <= a ? x : has_media(s, a, n) ? top_of(x, s, a, n-1) : media_step(top_of(x, s, a, n-1), s[n-1].Type, bytes(s[n-1].Value))
lemma[C17,C19] no_media induction n using none: forall s seq(sdp.Line), a int, n int :: {medias_of(s, a, n)} 0 <= a && !has_media(s, a, n) && hint(has_media(s, a, n-1)) ==> medias_of(s, a, n) == none("seq(sdp.Media)")
lemma[C17,C19] media_stays induction n using none: forall s seq(sdp.Line), a int, i int, n int :: {has_media(s, a, i), has_media(s, a, n)} 0 <= a && i <= n && has_media(s, a, i) ==> has_media(s, a, n)
lemma[C17,C19] session_stays induction n using media_stays: forall x sdp.Media, s seq(sdp.Line), a int, i int, n int :: {top_of(x, s, a, i), top_of(x, s, a, n)} i <= n && 0 <= a && a <= i && (i < n ==> s[i].Type == 'm') && hint(has_media(s, a, i+1)) && hint(has_media(s, a, n)) ==> top_of(x, s, a, n) == top_of(x, s, a, i)
func (*sdp.Decoder).decodeField(d, m) (err) {
  requires d != nil && m != nil && known_type(d.t)
  ensures[C17,C19] media_line: d.section == 2 && media_type(d.t) && err == nil ==> d.m == media_step(old(d.m), d.t, bytes(d.v))
  ensures[C17,C19] media_only: d.section == 2 && media_type(d.t) && err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
  ensures[C17,C19] session_line: d.section == 0 && d.t != 'm' && err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == media_step(old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths)), d.t, bytes(d.v))
  ensures[C17,C19] session_only: d.section == 0 && d.t != 'm' && err == nil ==> d.m == old(d.m)
  ensures[C17,C19] time_line: (d.t == 't' || d.t == 'r') && err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
  modifies m.Version, m.Origin, m.Name, m.Info, m.Email, m.Phone, m.URI, m.Connection, m.Attributes, m.Attributes[*], m.Encryption, m.Bandwidths, m.Bandwidths[*], m.Timing, m.Timing[*], m.TZAdjustments, m.TZAdjustments[*], d.m, d.m.Attributes[*], d.m.Bandwidths[*]
  ensures[C15] version: d.t == 'v' && atoi_ok(bytes(d.v)) ==> err == nil && m.Version == atoi(bytes(d.v))
  ensures[C15] origin_texts: d.t == 'o' && origin_ok(bytes(d.v)) ==> err == nil && m.Origin.Username == part(bytes(d.v), ' ', 0) && m.Origin.NetworkType == part(bytes(d.v), ' ', 3) && m.Origin.AddressType == part(bytes(d.v), ' ', 4) && m.Origin.Address == part(bytes(d.v), ' ', 5)
  ensures[C15] origin_numbers: d.t == 'o' && origin_ok(bytes(d.v)) ==> m.Origin.SessionID == atoi(part(bytes(d.v), ' ', 1)) && m.Origin.SessionVersion == atoi(part(bytes(d.v), ' ', 2))
  ensures[C15] media_texts: d.t == 'm' && media_ok(bytes(d.v)) ==> err == nil && d.m.Description.Type == part(bytes(d.v), ' ', 0) && d.m.Description.Protocol == part(bytes(d.v), ' ', 2) 
  ensures[C15] media_format: d.t == 'm' && media_ok(bytes(d.v)) ==> d.m.Description.Format == parts(bytes(d.v), 3, nfields(bytes(d.v), ' '))
  ensures[C15] media_ports: d.t == 'm' && media_ok(bytes(d.v)) ==> (let p = splitall(part(bytes(d.v), ' ', 1), "/") in d.m.Description.Port == atoi(p[0]) && d.m.Description.PortsNumber == (len(p) > 1 ? atoi(p[1]) : 0))
  ensures[C15] connection: d.t == 'c' && d.section == 0 && conn_ok(bytes(d.v)) ==> err == nil && conn_is(m.Connection, old(m.Connection), bytes(d.v))
  ensures[C15] media_connection: d.t == 'c' && d.section == 2 && conn_ok(bytes(d.v)) ==> err == nil && conn_is(d.m.Connection, old(d.m.Connection), bytes(d.v))
  ensures[C16] connection_refused: d.t == 'c' && d.section != 1 && err == nil && cnt(bytes(d.v), ' ', len(d.v)) == 2 && cnt(part(bytes(d.v), ' ', 2), '/', len(part(bytes(d.v), ' ', 2))) <= 2 ==> conn_numbers(bytes(d.v))
  ensures[C15] bandwidth: d.t == 'b' && d.section != 2 && bandwidth_ok(bytes(d.v)) ==> err == nil && kv_name(bytes(d.v)) in m.Bandwidths && m.Bandwidths[kv_name(bytes(d.v))] == atoi(kv_value(bytes(d.v)))
  ensures[C15] media_bandwidth: d.t == 'b' && d.section == 2 && bandwidth_ok(bytes(d.v)) ==> err == nil && kv_name(bytes(d.v)) in d.m.Bandwidths && d.m.Bandwidths[kv_name(bytes(d.v))] == atoi(kv_value(bytes(d.v)))
  ensures[C15] attribute: d.t == 'a' && d.section != 2 && kv_ok(bytes(d.v)) ==> err == nil && kv_name(bytes(d.v)) in m.Attributes && bytes(m.Attributes[kv_name(bytes(d.v))]) == old(kv_name(bytes(d.v)) in m.Attributes ? bytes(m.Attributes[kv_name(bytes(d.v))]) : none("seq(bytes)")) + unit(kv_value(bytes(d.v)))
  ensures[C15] media_attribute: d.t == 'a' && d.section == 2 && kv_ok(bytes(d.v)) ==> err == nil && kv_name(bytes(d.v)) in d.m.Attributes && bytes(d.m.Attributes[kv_name(bytes(d.v))]) == old(kv_name(bytes(d.v)) in d.m.Attributes ? bytes(d.m.Attributes[kv_name(bytes(d.v))]) : none("seq(bytes)")) + unit(kv_value(bytes(d.v)))
  ensures[C15] key: d.t == 'k' && d.section != 2 && kv_ok(bytes(d.v)) ==> err == nil && m.Encryption.Method == kv_name(bytes(d.v)) && m.Encryption.Key == kv_value(bytes(d.v))
  ensures[C15] media_key: d.t == 'k' && d.section == 2 && kv_ok(bytes(d.v)) ==> err == nil && d.m.Encryption.Method == kv_name(bytes(d.v)) && d.m.Encryption.Key == kv_value(bytes(d.v))
  ensures[C15] timing: d.t == 't' && timing_ok(bytes(d.v)) ==> err == nil && len(m.Timing) == old(len(m.Timing)) + 1 &&
    m.Timing[len(m.Timing)-1].Start == time_of(parseuint(part(bytes(d.v), ' ', 0))) && m.Timing[len(m.Timing)-1].End == time_of(parseuint(part(bytes(d.v), ' ', 1)))
  ensures[C16] timing_refused: d.t == 't' && err == nil && cnt(bytes(d.v), ' ', len(d.v)) == 1 ==> timing_ok(bytes(d.v))
  ensures[C15] repeat: d.t == 'r' && old(len(m.Timing)) > 0 && repeat_ok(bytes(d.v)) ==> err == nil && m.Timing[len(m.Timing)-1].Repeat == dur_value(part(bytes(d.v), ' ', 0)) && m.Timing[len(m.Timing)-1].Active == dur_value(part(bytes(d.v), ' ', 1))
  ensures[C15] repeat_offsets: d.t == 'r' && old(len(m.Timing)) > 0 && repeat_ok(bytes(d.v)) && old(len(m.Timing[len(m.Timing)-1].Offsets)) == 0 ==> (let o = bytes(m.Timing[len(m.Timing)-1].Offsets) in
    len(o) == nfields(bytes(d.v), ' ') - 2 && forall k int :: {o[k]} 0 <= k && k < len(o) ==> o[k] == dur_value(part(bytes(d.v), ' ', k + 2)))
  ensures[C16] repeat_refused: d.t == 'r' && err == nil ==> forall k int :: {part(bytes(d.v), ' ', k)} 0 <= k && k < nfields(bytes(d.v), ' ') ==> dur_ok(part(bytes(d.v), ' ', k))
  ensures[C16] zones_refused: d.t == 'z' && err == nil ==> forall k int :: {part(bytes(d.v), ' ', k)} 0 <= k && k < nfields(bytes(d.v), ' ') ==> (k % 2 == 0 ? parseuint_ok(part(bytes(d.v), ' ', k), 64) : dur_ok(part(bytes(d.v), ' ', k)))
}
// the lines of a time section change none of these
spec time_lines(s seq(sdp.Line), i int, n int) bool = forall k int :: {s[k]} i <= k && k < n ==> s[k].Type == 't' || s[k].Type == 'r'
lemma[C17,C19] time_no_media induction n using none: forall s seq(sdp.Line), a int, i int, n int :: {has_media(s, a, i), has_media(s, a, n)} 0 <= a && a <= i && i <= n && !has_media(s, a, i) && time_lines(s, i, n) && hint(s[n-1]) ==> !has_media(s, a, n)
lemma[C17,C19] time_skip induction n using none: forall x sdp.Media, s seq(sdp.Line), a int, i int, n int :: {top_of(x, s, a, i), top_of(x, s, a, n)} 0 <= a && a <= i && i <= n && !has_media(s, a, i) && time_lines(s, i, n) && hint(has_media(s, a, n)) && hint(s[n-1]) && hint(media_step(top_of(x, s, a, n-1), s[n-1].Type, bytes(s[n-1].Value))) ==> !has_media(s, a, n) && top_of(x, s, a, n) == top_of(x, s, a, i)
func (*sdp.Decoder).decodeTiming(d, m) (err) {
  requires d != nil && m != nil
  requires d.pos < len(d.s) && d.s[d.pos].Type == 't'
  modifies d.pos, d.t, d.v, d.l, d.section, d.sPos, d.m, d.m.Attributes[*], d.m.Bandwidths[*], m.Version, m.Origin, m.Name, m.Info, m.Email, m.Phone, m.URI, m.Connection, m.Attributes, m.Attributes[*], m.Encryption, m.Bandwidths, m.Bandwidths[*], m.Timing, m.Timing[*], m.TZAdjustments, m.TZAdjustments[*]
  ensures err == nil ==> d.pos > old(d.pos)
  ensures[C17,C19] time: err == nil ==> time_lines(bytes(d.s), old(d.pos), d.pos)
  ensures[C17,C19] kept: err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
  loop 1 {
    invariant 0 <= d.sPos && d.sPos <= d.pos && d.section == 1 && d.pos == old(d.pos) + $i && d.pos <= len(d.s)
    invariant[C17,C19] time_lines(bytes(d.s), old(d.pos), d.pos)
    invariant[C17,C19] level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
    decreases len(d.s) - d.pos
  }
}
// a media section ends before the next media line
lemma[C17,C19] media_chain induction n using media_stays: forall s seq(sdp.Line), a int, i int, n int :: {medias_of(s, a, i), medias_of(s, a, n), media_of(s, i, n)} 0 <= a && a <= i && i < n && s[i].Type == 'm' && (forall k int :: {s[k]} i < k && k < n ==> s[k].Type != 'm') && hint(media_of(s, i, n-1)) && hint(media_of(s, i, i)) && hint(has_media(s, a, i+1)) && hint(has_media(s, a, n)) && hint(s[n-1]) ==>
  has_media(s, a, n) && medias_of(s, a, n) == medias_of(s, a, i) + unit(media_of(s, i, n))
func (*sdp.Decoder).decodeMedia(d, m) (err) {
  requires d != nil && m != nil
  requires d.pos < len(d.s) && d.s[d.pos].Type == 'm'
  modifies d.pos, d.t, d.v, d.l, d.section, d.sPos, d.m, m.Version, m.Origin, m.Name, m.Info, m.Email, m.Phone, m.URI, m.Connection, m.Attributes, m.Attributes[*], m.Encryption, m.Bandwidths, m.Bandwidths[*], m.Timing, m.Timing[*], m.TZAdjustments, m.TZAdjustments[*], m.Medias, m.Medias[*]
  ensures err == nil ==> d.pos > old(d.pos)
  ensures[C17,C19] appended: err == nil ==> bytes(m.Medias) == old(bytes(m.Medias)) + unit(media_of(bytes(d.s), old(d.pos), d.pos))
  ensures[C17,C19] own: err == nil ==> forall k int :: {d.s[k]} old(d.pos) < k && k < d.pos ==> d.s[k].Type != 'm'
  ensures[C17,C19] ended: err == nil ==> d.pos == len(d.s) || d.s[d.pos].Type == 'm'
  ensures[C17,C19] kept: err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
  loop 1 {
    invariant 0 <= d.sPos && d.sPos <= $i && d.section == 2 && d.pos == old(d.pos) + $i && d.pos <= len(d.s)
    invariant[C17,C19] $i > 0 ==> d.sPos > 0
    invariant[C17,C19] forall k int :: {d.s[k]} old(d.pos) < k && k < d.pos ==> d.s[k].Type != 'm'
    invariant[C17,C19] d.m == media_of(bytes(d.s), old(d.pos), d.pos)
    invariant[C17,C19] level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths))
    decreases len(d.s) - d.pos
  }
}
func sdp.NewDecoder(s) (d) {
  requires true
  ensures[C02,C17,C19] start: d.pos == 0 && d.section == 0 && bytes(d.s) == bytes(s)
}
// whether a session is decoded without an error (decoding it again gives the same answer)
spec decodes(s seq(sdp.Line)) bool
func (*sdp.Decoder).Decode(d, m) (err) {
  requires d != nil && m != nil
  modifies d.pos, d.t, d.v, d.l, d.section, d.sPos, d.m, d.m.Attributes[*], d.m.Bandwidths[*], m.*, m.Attributes[*], m.Bandwidths[*], m.Timing[*], m.TZAdjustments[*], m.Medias[*]
  ensures[C13] ends: true
  assumes[C19] repeatable: old(d.pos) == 0 && old(d.section) == 0 && old(*m) == zero("sdp.Message") ==> (err == nil <==> decodes(bytes(d.s)))
  ensures[C17,C19] medias: err == nil ==> bytes(m.Medias) == old(bytes(m.Medias)) + medias_of(bytes(d.s), old(d.pos), len(d.s))
  ensures[C17,C19] session: err == nil ==> level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == top_of(old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths)), bytes(d.s), old(d.pos), len(d.s))
  loop 1 {
    invariant 0 <= d.sPos && d.sPos <= d.pos && d.section == 0 && d.pos <= len(d.s)
    invariant[C17,C19] d.pos >= old(d.pos)
    invariant[C17,C19] has_media(bytes(d.s), old(d.pos), d.pos) ==> d.pos == len(d.s) || d.s[d.pos].Type == 'm'
    invariant[C17,C19] bytes(m.Medias) == old(bytes(m.Medias)) + medias_of(bytes(d.s), old(d.pos), d.pos)
    invariant[C17,C19] level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths) == top_of(old(level(m.Info, m.Connection, m.Attributes, m.Encryption, m.Bandwidths)), bytes(d.s), old(d.pos), d.pos)
    decreases len(d.s) - d.pos
  }
}

// Decoding what was encoded gives the same sub-fields back.

// x, the separator, and the rest
def cut(x bytes, c int, r bytes) bytes = x + byte(c) + r
local lemma[C15] none_cnt induction n using none: forall x bytes, c int, n int :: {cnt(x, c, n)} ichar(x, c) < 0 && n <= len(x) && hint(x[n-1]) ==> cnt(x, c, n) == 0
local lemma[C15] none_fld induction n using none_cnt: forall x bytes, c int, n int :: {fld(x, c, 0, n)} ichar(x, c) < 0 && 0 <= n && n <= len(x) && hint(x[n-1]) ==> fld(x, c, 0, n) == x[:n]
local lemma[C15] fld_none induction n using none: forall s bytes, c int, k int, n int :: {fld(s, c, k, n)} cnt(s, c, n) < k ==> fld(s, c, k, n) == ""
local lemma[C15] cut_before induction n using none: forall x bytes, c int, r bytes, n int :: {cnt(cut(x, c, r), c, n)} n <= len(x) ==> cnt(cut(x, c, r), c, n) == cnt(x, c, n)
local lemma[C15] cut_fld_before induction n using cut_before: forall x bytes, c int, r bytes, k int, n int :: {fld(cut(x, c, r), c, k, n)} n <= len(x) ==> fld(cut(x, c, r), c, k, n) == fld(x, c, k, n)
local lemma[C15] cut_left using none: forall x bytes, c int, r bytes, i int :: {cut(x, c, r)[i]} 0 <= i && i < len(x) ==> cut(x, c, r)[i] == x[i]
local lemma[C15] cut_mid using none: forall x bytes, c int, r bytes, i int :: {cut(x, c, r)[i]} i == len(x) && 0 <= c && c < 256 ==> cut(x, c, r)[i] == c
local lemma[C15] cut_right using none: forall x bytes, c int, r bytes, i int :: {cut(x, c, r)[i]} len(x) < i && i <= len(x) + len(r) ==> cut(x, c, r)[i] == r[i - len(x) - 1]
local lemma[C15] cut_len using none: forall x bytes, c int, r bytes :: {cut(x, c, r)} len(cut(x, c, r)) == len(x) + 1 + len(r)
local lemma[C15] cnt_step using none: forall s bytes, c int, n int :: {cnt(s, c, n)} n > 0 ==> cnt(s, c, n) == cnt(s, c, n-1) + (s[n-1] == c ? 1 : 0)
local lemma[C15] cnt_zero using none: forall s bytes, c int, n int :: {cnt(s, c, n)} n <= 0 ==> cnt(s, c, n) == 0
local lemma[C15] cut_after induction n using cut_before, none_cnt, cut_mid, cut_right, cnt_step, cnt_zero opaque: forall x bytes, c int, r bytes, n int, m int :: {cnt(cut(x, c, r), c, n), cnt(r, c, m)} 0 <= c && c < 256 && ichar(x, c) < 0 && m == n - len(x) - 1 && 0 <= m && m <= len(r) && hint(cnt(x, c, len(x))) && hint(cnt(r, c, m-1)) ==> cnt(cut(x, c, r), c, n) == 1 + cnt(r, c, m)
local lemma[C15] cut_fld_first induction n using cut_fld_before, cut_before, cut_after, none_fld: forall x bytes, c int, r bytes, n int, m int :: {fld(cut(x, c, r), c, 0, n), fld(r, c, 0, m)} 0 <= c && c < 256 && ichar(x, c) < 0 && m == n - len(x) - 1 && 0 <= m && m <= len(r) && hint(fld(x, c, 0, len(x))) && hint(fld(r, c, 0, m-1)) && hint(cnt(r, c, m-1)) ==> fld(cut(x, c, r), c, 0, n) == x
local lemma[C15] cut_fld_rest induction n using cut_fld_before, cut_before, cut_after, none_cnt, fld_none: forall x bytes, c int, r bytes, k int, j int, n int, m int :: {fld(cut(x, c, r), c, k, n), fld(r, c, j, m)} 0 <= c && c < 256 && ichar(x, c) < 0 && m == n - len(x) - 1 && 0 <= m && m <= len(r) && k == j + 1 && 0 <= j && hint(fld(x, c, k, len(x))) && hint(cnt(x, c, len(x))) && hint(fld(r, c, j, m-1)) && hint(cnt(r, c, m-1)) ==> fld(cut(x, c, r), c, k, n) == fld(r, c, j, m)
// parts of such a text
local lemma[C15] parts_count using cut_after: forall x bytes, c int, r bytes :: {nfields(cut(x, c, r), c)} 0 <= c && c < 256 && ichar(x, c) < 0 && hint(cnt(r, c, len(r))) ==> nfields(cut(x, c, r), c) == 1 + nfields(r, c)
local lemma[C15] part_first using cut_fld_first: forall x bytes, c int, r bytes :: {part(cut(x, c, r), c, 0)} 0 <= c && c < 256 && ichar(x, c) < 0 && hint(fld(r, c, 0, len(r))) ==> part(cut(x, c, r), c, 0) == x
local lemma[C15] part_rest using cut_fld_rest: forall x bytes, c int, r bytes, k int :: {part(cut(x, c, r), c, k)} 0 <= c && c < 256 && ichar(x, c) < 0 && 1 <= k && hint(fld(r, c, k-1, len(r))) ==> part(cut(x, c, r), c, k) == part(r, c, k-1)
local lemma[C15] part_whole using none_fld: forall x bytes, c int :: {part(x, c, 0)} ichar(x, c) < 0 ==> part(x, c, 0) == x
local lemma[C15] part_beyond using fld_none, none_cnt: forall x bytes, c int, k int :: {part(x, c, k)} ichar(x, c) < 0 && 1 <= k && hint(cnt(x, c, len(x))) ==> part(x, c, k) == ""
local lemma[C15] one_field using none_cnt: forall x bytes, c int :: {nfields(x, c)} ichar(x, c) < 0 ==> nfields(x, c) == 1
local lemma[C15] cut_char using none: forall x bytes, c int, r bytes, d int :: {ichar(cut(x, c, r), d)} 0 <= c && c < 256 && c != d && ichar(x, d) < 0 && ichar(r, d) < 0 && hint(x[ichar(cut(x, c, r), d)]) && hint(r[ichar(cut(x, c, r), d) - len(x) - 1]) ==> ichar(cut(x, c, r), d) < 0
local lemma[C15] cut_at using none: forall x bytes, c int, r bytes :: {ichar(cut(x, c, r), c)} 0 <= c && c < 256 && ichar(x, c) < 0 && hint(x[ichar(cut(x, c, r), c)]) && hint(cut(x, c, r)[len(x)]) ==> ichar(cut(x, c, r), c) == len(x)
// blanks stand alone
local lemma[C15] single_none induction n using none: forall x bytes, n int :: {single(x, n)} ichar(x, ' ') < 0 && n <= len(x) && hint(x[n-1]) ==> single(x, n)
local lemma[C15] single_before induction n using none: forall x bytes, r bytes, n int :: {single(cut(x, ' ', r), n)} n <= len(x) ==> single(cut(x, ' ', r), n) == single(x, n)
local lemma[C15] single_after induction n using single_before: forall x bytes, r bytes, n int, m int :: {single(cut(x, ' ', r), n), single(r, m)} single(x, len(x)) && x != "" && x[len(x)-1] != ' ' && m == n - len(x) - 1 && 0 <= m && m <= len(r) && single(r, m) && hint(single(r, m-1)) && hint(single(cut(x, ' ', r), len(x))) ==> single(cut(x, ' ', r), n)
local lemma[C15] single_snoc using single_after: forall x bytes, r bytes, n int :: {single(cut(x, ' ', r), n)} n == len(cut(x, ' ', r)) && single(x, len(x)) && x != "" && x[len(x)-1] != ' ' && single(r, len(r)) ==> single(cut(x, ' ', r), n)
local lemma[C15] single_cut using single_snoc, single_none: forall x bytes, r bytes, n int :: {single(cut(x, ' ', r), n)} n == len(cut(x, ' ', r)) && ichar(x, ' ') < 0 && x != "" && single(r, len(r)) && hint(single(x, len(x))) && hint(x[len(x)-1]) ==> single(cut(x, ' ', r), n)
// numbers have no delimiters
local lemma[C15] dec_chars induction n using none: forall n int, i int :: {dec(n)[i]} 0 <= n && 0 <= i && i < len(dec(n)) ==> '0' <= dec(n)[i] && dec(n)[i] <= '9'
local lemma[C15] itoa_char using dec_chars, itoa_dec, itoa_neg: forall n int, c int :: {ichar(itoa(n), c)} (c < '0' || c > '9') && c != '-' && hint(dec(n)[ichar(itoa(n), c)]) && hint(dec(-n)[ichar(itoa(n), c) - 1]) ==> ichar(itoa(n), c) < 0
local lemma[C15] itoa_len using itoa_dec, itoa_neg, dec_len: forall n int :: {itoa(n)} hint(dec(n)) && hint(dec(-n)) ==> len(itoa(n)) > 0
// the sub-fields of a text, joined again
spec flds(s bytes, n int, k int) bytes = k <= 0 ? "" : flds(s, n, k-1) + (k > 1 ? " " : "") + fld(s, ' ', k-1, n)
local lemma[C15] flds_frame induction k using none: forall s bytes, n int, m int, k int :: {flds(s, n, k), flds(s, m, k)} 0 <= m && n == m + 1 && n <= len(s) && k <= cnt(s, ' ', m) + (s[m] == ' ' ? 1 : 0) ==> flds(s, n, k) == flds(s, m, k)
local lemma[C15] flds_open using none: forall s bytes, n int, k int :: {flds(s, n, k)} k > 0 ==> flds(s, n, k) == flds(s, n, k-1) + (k > 1 ? " " : "") + fld(s, ' ', k-1, n)
local lemma[C15] fld_step using none: forall s bytes, c int, k int, n int, m int :: {fld(s, c, k, n), fld(s, c, k, m)} 0 <= m && n == m + 1 ==> fld(s, c, k, n) == (s[m] != c && cnt(s, c, m) == k ? fld(s, c, k, m) + byte(s[m]) : fld(s, c, k, m))
local lemma[C15] snoc_sub using none: forall s bytes, n int, m int :: {s[:n], s[:m]} 0 <= m && n == m + 1 && n <= len(s) ==> s[:n] == s[:m] + byte(s[m])
local lemma[C15] flds_blank using flds_frame, flds_open, fld_none, fld_step, cnt_step, snoc_sub opaque: forall s bytes, n int, m int, k int :: {flds(s, n, k), flds(s, m, k)} 0 <= m && n == m + 1 && n <= len(s) && k == cnt(s, ' ', n) + 1 && s[m] == ' ' && hint(cnt(s, ' ', m)) && hint(flds(s, n, k-1)) && hint(flds(s, m, k-1)) && hint(fld(s, ' ', k-1, m)) && hint(s[:n]) && flds(s, m, k-1) == s[:m] ==> flds(s, n, k) == s[:n]
local lemma[C15] flds_more using flds_frame, flds_open, fld_step opaque: forall s bytes, n int, m int, k int :: {flds(s, n, k), flds(s, m, k)} 0 <= m && n == m + 1 && n <= len(s) && k == cnt(s, ' ', m) + 1 && s[m] != ' ' && hint(flds(s, n, k-1)) && hint(flds(s, m, k-1)) && hint(fld(s, ' ', k-1, m)) && hint(fld(s, ' ', k-1, n)) ==> flds(s, n, k) == flds(s, m, k) + byte(s[m])
local lemma[C15] flds_char using flds_more, cnt_step, snoc_sub opaque: forall s bytes, n int, m int, k int :: {flds(s, n, k), flds(s, m, k)} 0 <= m && n == m + 1 && n <= len(s) && k == cnt(s, ' ', n) + 1 && s[m] != ' ' && hint(cnt(s, ' ', m)) && hint(s[:n]) && flds(s, m, k) == s[:m] ==> flds(s, n, k) == s[:n]
local lemma[C15] flds_whole induction n using flds_blank, flds_char: forall s bytes, n int, k int :: {flds(s, n, k)} 0 <= n && n <= len(s) && k == cnt(s, ' ', n) + 1 && hint(cnt(s, ' ', n-1)) && hint(flds(s, n-1, k-1)) && hint(flds(s, n-1, k)) ==> flds(s, n, k) == s[:n]
local lemma[C15] parts_flds induction k using none: forall s bytes, k int :: {parts(s, 0, k)} hint(flds(s, len(s), k)) ==> parts(s, 0, k) == flds(s, len(s), k)
local lemma[C15] parts_all using parts_flds, flds_whole: forall s bytes, k int :: {parts(s, 0, k)} k == nfields(s, ' ') && hint(flds(s, len(s), k)) ==> parts(s, 0, k) == s
local lemma[C15] parts_cut induction j using part_rest: forall x bytes, r bytes, k int, j int, a int, b int :: {parts(cut(x, ' ', r), k, j), parts(r, a, b)} ichar(x, ' ') < 0 && 1 <= k && a == k - 1 && b == j - 1 && hint(parts(r, a, b-1)) && hint(part(cut(x, ' ', r), ' ', j-1)) && hint(part(r, ' ', b-1)) ==> parts(cut(x, ' ', r), k, j) == parts(r, a, b)
// a sub-field: not empty, no blank
spec word(x bytes) bool = x != "" && ichar(x, ' ') < 0
local lemma[C15] cut_2 using parts_count, part_first, part_rest, part_whole, one_field opaque: forall a bytes, b bytes :: {cut(a, ' ', b)} word(a) && word(b) && hint(nfields(cut(a, ' ', b), ' ')) && hint(part(cut(a, ' ', b), ' ', 0)) && hint(part(cut(a, ' ', b), ' ', 1)) ==> nfields(cut(a, ' ', b), ' ') == 2 && part(cut(a, ' ', b), ' ', 0) == a && part(cut(a, ' ', b), ' ', 1) == b
local lemma[C15] cut_3 using parts_count, part_first, part_rest, cut_2 opaque: forall a bytes, b bytes, c bytes, v bytes :: {cut(a, ' ', cut(b, ' ', c)), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', c)) && word(a) && word(b) && word(c) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) && hint(part(v, ' ', 2)) ==>
  nfields(v, ' ') == 3 && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c
local lemma[C15] cut_4 using parts_count, part_first, part_rest, cut_3 opaque: forall a bytes, b bytes, c bytes, d bytes, v bytes :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', d))), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', d))) && word(a) && word(b) && word(c) && word(d) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) && hint(part(v, ' ', 2)) && hint(part(v, ' ', 3)) && hint(part(cut(b, ' ', cut(c, ' ', d)), ' ', 0)) ==>
  nfields(v, ' ') == 4 && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c && part(v, ' ', 3) == d
local lemma[C15] cut_5 using parts_count, part_first, part_rest, cut_4 opaque: forall a bytes, b bytes, c bytes, d bytes, e bytes, v bytes :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', e)))), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', e)))) && word(a) && word(b) && word(c) && word(d) && word(e) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) && hint(part(v, ' ', 2)) && hint(part(v, ' ', 3)) && hint(part(v, ' ', 4)) && hint(part(cut(b, ' ', cut(c, ' ', cut(d, ' ', e))), ' ', 0)) ==>
  nfields(v, ' ') == 5 && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c && part(v, ' ', 3) == d && part(v, ' ', 4) == e
local lemma[C15] cut_6 using parts_count, part_first, part_rest, cut_5 opaque: forall a bytes, b bytes, c bytes, d bytes, e bytes, f bytes, v bytes :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))) && word(a) && word(b) && word(c) && word(d) && word(e) && word(f) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) && hint(part(v, ' ', 2)) && hint(part(v, ' ', 3)) && hint(part(v, ' ', 4)) && hint(part(v, ' ', 5)) && hint(part(cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f)))), ' ', 0)) ==>
  nfields(v, ' ') == 6 && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c && part(v, ' ', 3) == d && part(v, ' ', 4) == e && part(v, ' ', 5) == f
// such values have single blanks
local lemma[C15] single_2 using single_cut, single_none opaque: forall a bytes, b bytes, n int :: {single(cut(a, ' ', b), n)} n == len(cut(a, ' ', b)) && word(a) && word(b) && hint(single(b, len(b))) ==> single(cut(a, ' ', b), n)
local lemma[C15] single_more using single_cut opaque: forall a bytes, b bytes, n int :: {single(cut(a, ' ', b), n)} n == len(cut(a, ' ', b)) && word(a) && single(b, len(b)) ==> single(cut(a, ' ', b), n)
local lemma[C15] single_of using single_none opaque: forall x bytes, n int :: {single(x, n)} n == len(x) && word(x) ==> single(x, n)
local lemma[C15] single_3 using single_more, single_2 opaque: forall a bytes, b bytes, c bytes, n int :: {single(cut(a, ' ', cut(b, ' ', c)), n)} n == len(cut(a, ' ', cut(b, ' ', c))) && word(a) && word(b) && word(c) && hint(single(cut(b, ' ', c), len(cut(b, ' ', c)))) ==> single(cut(a, ' ', cut(b, ' ', c)), n)
local lemma[C15] single_4 using single_more, single_3 opaque: forall a bytes, b bytes, c bytes, d bytes, n int :: {single(cut(a, ' ', cut(b, ' ', cut(c, ' ', d))), n)} n == len(cut(a, ' ', cut(b, ' ', cut(c, ' ', d)))) && word(a) && word(b) && word(c) && word(d) && hint(single(cut(b, ' ', cut(c, ' ', d)), len(cut(b, ' ', cut(c, ' ', d))))) ==> single(cut(a, ' ', cut(b, ' ', cut(c, ' ', d))), n)
local lemma[C15] single_5 using single_more, single_4 opaque: forall a bytes, b bytes, c bytes, d bytes, e bytes, n int :: {single(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', e)))), n)} n == len(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', e))))) && word(a) && word(b) && word(c) && word(d) && word(e) && hint(single(cut(b, ' ', cut(c, ' ', cut(d, ' ', e))), len(cut(b, ' ', cut(c, ' ', cut(d, ' ', e)))))) ==> single(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', e)))), n)
local lemma[C15] single_6 using single_more, single_5 opaque: forall a bytes, b bytes, c bytes, d bytes, e bytes, f bytes, n int :: {single(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))), n)} n == len(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f)))))) && word(a) && word(b) && word(c) && word(d) && word(e) && word(f) && hint(single(cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f)))), len(cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))))) ==> single(cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))), n)
local lemma[C15] word_itoa using itoa_char, itoa_len: forall n int :: {word(itoa(n))} hint(ichar(itoa(n), ' ')) ==> word(itoa(n))
spec literal(x bytes) bool = x == "IN" || x == "IP4" || x == "IP6"
local lemma[C15] word_literal using none: forall x bytes :: {word(x)} literal(x) && hint(x[ichar(x, ' ')]) && hint(ichar(x, ' ')) ==> word(x)
spec int64(n int) bool = -9223372036854775808 <= n && n <= 9223372036854775807
// origin
local lemma[C15] word_kind using word_literal: forall a bytes, k bytes :: {word(addr_kind(a, k))} (k == "" || word(k)) && hint(word("IP4")) && hint(word("IP6")) ==> word(addr_kind(a, k))
local lemma[C15] word_net using word_literal: forall n bytes :: {word(dflt(n, "IN"))} (n == "" || word(n)) && hint(word("IN")) ==> word(dflt(n, "IN"))
spec origin_cut(o sdp.Origin) bytes = cut(o.Username, ' ', cut(itoa(o.SessionID), ' ', cut(itoa(o.SessionVersion), ' ', cut(dflt(o.NetworkType, "IN"), ' ', cut(addr_kind(o.Address, o.AddressType), ' ', o.Address)))))
local lemma[C15] origin_cut using cut_6, single_6 opaque: forall a bytes, b bytes, c bytes, d bytes, e bytes, f bytes, v bytes, n int :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))), single(v, n)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f))))) && n == len(v) && word(a) && word(b) && word(c) && word(d) && word(e) && word(f) && hint(part(v, ' ', 0)) ==>
  single(v, n) && nfields(v, ' ') == 6 && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c && part(v, ' ', 3) == d && part(v, ' ', 4) == e && part(v, ' ', 5) == f
local lemma[C15] cut_text_6 using none: forall a bytes, b bytes, c bytes, d bytes, e bytes, f bytes :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f)))))} a + " " + b + " " + c + " " + d + " " + e + " " + f == cut(a, ' ', cut(b, ' ', cut(c, ' ', cut(d, ' ', cut(e, ' ', f)))))
local lemma[C15] origin_good using none: forall v bytes :: {origin_ok(v)} single(v, len(v)) && nfields(v, ' ') == 6 && atoi_ok(part(v, ' ', 1)) && atoi_ok(part(v, ' ', 2)) ==> origin_ok(v)
lemma[C15] origin_round_trip using origin_cut, cut_text_6, word_itoa, itoa_atoi, origin_good opaque: forall o sdp.Origin, n bytes, k bytes, v bytes :: {origin_ok(v), addr_kind(o.Address, k), word(n)} v == origin_text(o) && n == dflt(o.NetworkType, "IN") && k == addr_kind(o.Address, o.AddressType) && word(n) && word(k) && word(o.Username) && word(o.Address) && int64(o.SessionID) && int64(o.SessionVersion) &&
  hint(cut(o.Username, ' ', cut(itoa(o.SessionID), ' ', cut(itoa(o.SessionVersion), ' ', cut(n, ' ', cut(k, ' ', o.Address)))))) && hint(single(v, len(v))) && hint(atoi_ok(part(v, ' ', 1))) && hint(atoi_ok(part(v, ' ', 2))) && hint(atoi(itoa(o.SessionID))) && hint(atoi(itoa(o.SessionVersion))) && hint(word(itoa(o.SessionID))) && hint(word(itoa(o.SessionVersion))) ==>
  origin_ok(v) && part(v, ' ', 0) == o.Username && atoi(part(v, ' ', 1)) == o.SessionID && atoi(part(v, ' ', 2)) == o.SessionVersion && part(v, ' ', 3) == n && part(v, ' ', 4) == k && part(v, ' ', 5) == o.Address
// timing
local lemma[C15] timing_good using none: forall v bytes :: {timing_ok(v)} nfields(v, ' ') == 2 && parseuint_ok(part(v, ' ', 0), 64) && parseuint_ok(part(v, ' ', 1), 64) ==> timing_ok(v)
local lemma[C15] timing_numbers using cut_2, word_itoa, itoa_parse64, timing_good opaque: forall a int, b int, v bytes :: {cut(itoa(a), ' ', itoa(b)), timing_ok(v)} v == cut(itoa(a), ' ', itoa(b)) && 0 <= a && a < 18446744073709551616 && 0 <= b && b < 18446744073709551616 && hint(word(itoa(a))) && hint(word(itoa(b))) && hint(parseuint_ok(itoa(a), 64)) && hint(parseuint_ok(itoa(b), 64)) && hint(parseuint(itoa(a))) && hint(parseuint(itoa(b))) && hint(part(v, ' ', 0)) && hint(part(v, ' ', 1)) ==>
  timing_ok(v) && parseuint(part(v, ' ', 0)) == a && parseuint(part(v, ' ', 1)) == b
local lemma[C15] cut_text_2 using none: forall a bytes, b bytes :: {cut(a, ' ', b)} a + " " + b == cut(a, ' ', b)
lemma[C15] timing_round_trip using timing_numbers, cut_text_2 opaque: forall s time.Time, e time.Time, v bytes :: {timing_ok(v), ntp_of(s), ntp_of(e)} v == itoa(ntp_of(s)) + " " + itoa(ntp_of(e)) && hint(cut(itoa(ntp_of(s)), ' ', itoa(ntp_of(e)))) ==>
  timing_ok(v) && parseuint(part(v, ' ', 0)) == ntp_of(s) && parseuint(part(v, ' ', 1)) == ntp_of(e)
lemma[C15] time_back using none: forall t time.Time :: {time_of(ntp_of(t))} (iszero(t) ==> iszero(time_of(ntp_of(t)))) && (!iszero(t) && unixsec(t) != -ntpdelta && hint(mktime(unixsec(t))) ==> unixsec(time_of(ntp_of(t))) == unixsec(t))
// name:value
local lemma[C15] kv_cut using cut_at opaque: forall a bytes, b bytes, v bytes :: {cut(a, ':', b), ichar(v, ':')} v == cut(a, ':', b) && ichar(a, ':') < 0 ==> ichar(v, ':') == len(a)
local lemma[C15] kv_back using kv_cut: forall a bytes, b bytes, v bytes :: {cut(a, ':', b), ichar(v, ':')} v == cut(a, ':', b) && ichar(a, ':') < 0 && b != "" ==> kv_ok(v) && kv_name(v) == a && kv_value(v) == b
local lemma[C15] kv_text using none: forall a bytes, b bytes :: {cut(a, ':', b)} a + ":" + b == cut(a, ':', b)
lemma[C15] attribute_round_trip using kv_back, kv_text opaque: forall a bytes, w seq(bytes), v bytes :: {ichar(v, ':'), joined(w, len(w)), ichar(a, ':')} v == a + (len(w) > 0 ? ":" + joined(w, len(w)) : "") && ichar(a, ':') < 0 && (len(w) > 0 ==> joined(w, len(w)) != "") && hint(cut(a, ':', joined(w, len(w)))) ==>
  kv_ok(v) && kv_name(v) == a && kv_value(v) == (len(w) > 0 ? joined(w, len(w)) : "")
lemma[C15] key_round_trip using kv_back, kv_text opaque: forall m bytes, k bytes, v bytes :: {ichar(v, ':'), ichar(m, ':'), len(k)} v == key_text(m, k) && ichar(m, ':') < 0 && hint(cut(m, ':', k)) ==> kv_ok(v) && kv_name(v) == m && kv_value(v) == k
lemma[C15] bandwidth_round_trip using kv_back, kv_text, itoa_atoi, itoa_len opaque: forall t bytes, n int, v bytes :: {ichar(v, ':'), ichar(t, ':'), itoa(n)} v == t + ":" + itoa(n) && (t == "CT" || t == "AS") && int64(n) && hint(cut(t, ':', itoa(n))) && hint(t[ichar(t, ':')]) && hint(atoi(itoa(n))) ==>
  bandwidth_ok(v) && kv_name(v) == t && atoi(kv_value(v)) == n
lemma[C15] version_round_trip using itoa_atoi opaque: forall n int :: {itoa(n)} int64(n) && hint(atoi(itoa(n))) ==> atoi_ok(itoa(n)) && atoi(itoa(n)) == n
// media description
local lemma[C15] rest_3 using parts_count, part_first, part_rest opaque: forall a bytes, b bytes, c bytes, f bytes, v bytes :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', f))), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', f))) && word(a) && word(b) && word(c) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) && hint(part(v, ' ', 2)) ==>
  nfields(v, ' ') == 3 + nfields(f, ' ') && part(v, ' ', 0) == a && part(v, ' ', 1) == b && part(v, ' ', 2) == c
local lemma[C15] rest_parts using parts_cut, parts_all opaque: forall a bytes, b bytes, c bytes, f bytes, v bytes, n int :: {cut(a, ' ', cut(b, ' ', cut(c, ' ', f))), parts(v, 3, n)} v == cut(a, ' ', cut(b, ' ', cut(c, ' ', f))) && word(a) && word(b) && word(c) && n == 3 + nfields(f, ' ') && hint(parts(cut(b, ' ', cut(c, ' ', f)), 2, n-1)) && hint(parts(cut(c, ' ', f), 1, n-2)) && hint(parts(f, 0, n-3)) ==>
  parts(v, 3, n) == f
local lemma[C15] rest_single using single_more opaque: forall a bytes, b bytes, c bytes, f bytes, n int :: {single(cut(a, ' ', cut(b, ' ', cut(c, ' ', f))), n)} n == len(cut(a, ' ', cut(b, ' ', cut(c, ' ', f)))) && word(a) && word(b) && word(c) && single(f, len(f)) && hint(single(cut(b, ' ', cut(c, ' ', f)), len(cut(b, ' ', cut(c, ' ', f))))) && hint(single(cut(c, ' ', f), len(cut(c, ' ', f)))) ==>
  single(cut(a, ' ', cut(b, ' ', cut(c, ' ', f))), n)
local lemma[C15] slash_char using none: forall s bytes :: {sindex(s, "/")} hint(ichar(s, '/')) && hint(s[sindex(s, "/")]) && hint(s[ichar(s, '/'):ichar(s, '/')+1]) ==> sindex(s, "/") == ichar(s, '/')
local lemma[C15] slash_none using slash_char: forall s bytes :: {splitall(s, "/")} ichar(s, '/') < 0 && hint(sindex(s, "/")) ==> splitall(s, "/") == unit(s)
local lemma[C15] slash_cut using slash_char, cut_at opaque: forall a bytes, b bytes, s bytes :: {cut(a, '/', b), sindex(s, "/")} s == cut(a, '/', b) && ichar(a, '/') < 0 && hint(ichar(s, '/')) ==> sindex(s, "/") == len(a)
local lemma[C15] slash_two using slash_cut, slash_none: forall a bytes, b bytes, s bytes :: {cut(a, '/', b), splitall(s, "/")} s == cut(a, '/', b) && ichar(a, '/') < 0 && ichar(b, '/') < 0 && hint(splitall(b, "/")) && hint(sindex(s, "/")) ==> splitall(s, "/") == unit(a) + unit(b)
def ports_text(p int, n int) bytes = itoa(p) + (n != 0 ? "/" + itoa(n) : "")
local lemma[C15] slash_text using none: forall a bytes, b bytes :: {cut(a, '/', b)} a + "/" + b == cut(a, '/', b)
local lemma[C15] ports_cut using slash_text: forall p int, n int :: {ports_text(p, n)} n != 0 && hint(cut(itoa(p), '/', itoa(n))) ==> ports_text(p, n) == cut(itoa(p), '/', itoa(n))
local lemma[C15] ports_word using ports_cut, cut_char, itoa_char, itoa_len: forall p int, n int :: {word(ports_text(p, n))} hint(ichar(itoa(p), ' ')) && hint(ichar(itoa(n), ' ')) && hint(ichar(cut(itoa(p), '/', itoa(n)), ' ')) ==> word(ports_text(p, n))
local lemma[C15] ports_split using ports_cut, slash_two, slash_none, itoa_char opaque: forall p int, n int :: {splitall(ports_text(p, n), "/")} n != 0 && hint(ichar(itoa(p), '/')) && hint(ichar(itoa(n), '/')) ==> splitall(ports_text(p, n), "/") == unit(itoa(p)) + unit(itoa(n))
local lemma[C15] port_split using slash_none, itoa_char: forall p int, n int :: {splitall(ports_text(p, n), "/")} n == 0 && hint(ichar(itoa(p), '/')) && hint(splitall(itoa(p), "/")) ==> splitall(ports_text(p, n), "/") == unit(itoa(p))
local lemma[C15] ports_back using ports_split, port_split, itoa_atoi opaque: forall p int, n int, s bytes :: {ports_text(p, n), splitall(s, "/")} s == ports_text(p, n) && int64(p) && int64(n) && hint(atoi(itoa(p))) && hint(atoi(itoa(n))) ==>
  let q = splitall(s, "/") in len(q) == (n != 0 ? 2 : 1) && atoi_ok(q[0]) && atoi(q[0]) == p && (n != 0 ==> atoi_ok(q[1]) && atoi(q[1]) == n)
local lemma[C15] cut_text_4 using none: forall a bytes, p int, n int, c bytes, f bytes :: {cut(a, ' ', cut(ports_text(p, n), ' ', cut(c, ' ', f)))} a + " " + itoa(p) + (n != 0 ? "/" + itoa(n) : "") + " " + c + " " + f == cut(a, ' ', cut(ports_text(p, n), ' ', cut(c, ' ', f)))
local lemma[C15] media_good using none: forall v bytes :: {media_ok(v)} single(v, len(v)) && nfields(v, ' ') >= 4 && (let p = splitall(part(v, ' ', 1), "/") in atoi_ok(p[0]) && (len(p) > 1 ==> atoi_ok(p[1]))) ==> media_ok(v)
local lemma[C15] fields_some using none: forall f bytes :: {nfields(f, ' ')} nfields(f, ' ') >= 1
lemma[C15] media_round_trip using rest_3, rest_parts, rest_single, ports_word, ports_back, cut_text_4, media_good, fields_some opaque: forall m sdp.MediaDescription, v bytes, n int :: {media_ok(v), parts(v, 3, n), itoa(m.Port), itoa(m.PortsNumber)} v == media_text(m) && n == nfields(v, ' ') && word(m.Type) && word(m.Protocol) && m.Format != "" && single(m.Format, len(m.Format)) && int64(m.Port) && int64(m.PortsNumber) &&
  hint(cut(m.Type, ' ', cut(ports_text(m.Port, m.PortsNumber), ' ', cut(m.Protocol, ' ', m.Format)))) && hint(word(ports_text(m.Port, m.PortsNumber))) && hint(part(v, ' ', 0)) && hint(single(v, len(v))) && hint(splitall(part(v, ' ', 1), "/")) ==>
  media_ok(v) && part(v, ' ', 0) == m.Type && part(v, ' ', 2) == m.Protocol && parts(v, 3, n) == m.Format && (let p = splitall(part(v, ' ', 1), "/") in atoi(p[0]) == m.Port && (len(p) > 1 ? atoi(p[1]) : 0) == m.PortsNumber)
// connection data: addresses as text (package net)
local axiom ip6_text: forall b bytes :: {ipstr(b)} len(b) == 16 && to4(b) == "" ==> parseip(toupper(ipstr(b))) == b && toupper(ipstr(b)) != "" && ichar(toupper(ipstr(b)), ' ') < 0 && ichar(toupper(ipstr(b)), '/') < 0
local axiom ip4_text: forall b bytes :: {quad(b, 4)} len(b) == 4 ==> to4(parseip(quad(b, 4))) == b
local lemma[C15] quad_cut using none: forall b bytes, n int, m int :: {quad(b, n), quad(b, m)} m == n - 1 && n > 1 && hint(cut(quad(b, m), '.', itoa(b[m]))) ==> quad(b, n) == cut(quad(b, m), '.', itoa(b[m]))
local lemma[C15] quad_one using none: forall b bytes, n int :: {quad(b, n)} n <= 1 ==> quad(b, n) == itoa(b[0])
local lemma[C15] quad_char induction n using quad_cut, quad_one, cut_char, itoa_char opaque: forall b bytes, c int, n int :: {ichar(quad(b, n), c)} (c == ' ' || c == '/') && hint(quad(b, n-1)) && hint(ichar(cut(quad(b, n-1), '.', itoa(b[n-1])), c)) && hint(ichar(itoa(b[n-1]), c)) && hint(ichar(itoa(b[0]), c)) && hint(ichar(quad(b, n-1), c)) ==> ichar(quad(b, n), c) < 0
local lemma[C15] quad_some using quad_cut, quad_one, cut_len, itoa_len opaque: forall b bytes, n int :: {quad(b, n)} hint(quad(b, n-1)) && hint(itoa(b[0])) && hint(cut(quad(b, n-1), '.', itoa(b[n-1]))) ==> quad(b, n) != ""
spec ip_wf(b bytes) bool = len(b) == 4 || len(b) == 16
local lemma[C15] to4_len using none: forall b bytes :: {to4(b)} to4(b) == "" || len(to4(b)) == 4
local lemma[C15] to4_four using none: forall b bytes :: {to4(b)} len(b) == 4 ==> to4(b) == b
local lemma[C15] ip_text_char using quad_char, ip6_text, to4_len, to4_four opaque: forall b bytes, c int, x bytes :: {ip_text(b), ichar(x, c)} x == ip_text(b) && ip_wf(b) && (c == ' ' || c == '/') && hint(ichar(quad(to4(b), 4), c)) && hint(ichar(toupper(ipstr(b)), c)) ==> ichar(x, c) < 0
local lemma[C15] ip_text_some using quad_some, ip6_text, to4_len, to4_four opaque: forall b bytes, x bytes :: {ip_text(b), word(x)} x == ip_text(b) && ip_wf(b) && hint(quad(to4(b), 4)) ==> x != ""
local lemma[C15] ip_back using ip4_text, ip6_text, to4_len, to4_four opaque: forall b bytes, x bytes :: {ip_text(b), parseip(x)} x == ip_text(b) && ip_wf(b) && hint(to4(parseip(x))) ==> (to4(b) != "" ? to4(parseip(x)) == to4(b) : parseip(x) == b && to4(parseip(x)) == "")
// the address, time to live and number
local lemma[C15] addr_0 using part_whole, part_beyond, none_cnt opaque: forall x bytes :: {part(x, '/', 0)} ichar(x, '/') < 0 && hint(part(x, '/', 1)) && hint(part(x, '/', 2)) && hint(cnt(x, '/', len(x))) ==> part(x, '/', 0) == x && part(x, '/', 1) == "" && part(x, '/', 2) == "" && cnt(x, '/', len(x)) == 0
local lemma[C15] addr_1 using part_first, part_rest, addr_0, cut_after opaque: forall x bytes, y bytes, s bytes :: {cut(x, '/', y), part(s, '/', 0)} s == cut(x, '/', y) && ichar(x, '/') < 0 && ichar(y, '/') < 0 && hint(part(s, '/', 1)) && hint(part(s, '/', 2)) && hint(part(y, '/', 0)) && hint(cnt(s, '/', len(s))) && hint(cnt(y, '/', len(y))) && len(s) == len(x) + 1 + len(y) ==>
  part(s, '/', 0) == x && part(s, '/', 1) == y && part(s, '/', 2) == "" && cnt(s, '/', len(s)) == 1
local lemma[C15] addr_2 using part_first, part_rest, addr_1, cut_after, cut_len opaque: forall x bytes, y bytes, z bytes, s bytes :: {cut(x, '/', cut(y, '/', z)), part(s, '/', 0)} s == cut(x, '/', cut(y, '/', z)) && ichar(x, '/') < 0 && ichar(y, '/') < 0 && ichar(z, '/') < 0 && hint(part(s, '/', 1)) && hint(part(s, '/', 2)) && hint(part(cut(y, '/', z), '/', 0)) && hint(cnt(s, '/', len(s))) && hint(cnt(cut(y, '/', z), '/', len(cut(y, '/', z)))) ==>
  part(s, '/', 0) == x && part(s, '/', 1) == y && part(s, '/', 2) == z && cnt(s, '/', len(s)) == 2
def addr_text(x bytes, ttl int, n int) bytes = x + (ttl > 0 ? "/" + itoa(ttl) : "") + (n > 0 ? "/" + itoa(n) : "")
local lemma[C15] addr_none using none: forall x bytes, t int, n int :: {addr_text(x, t, n)} t <= 0 && n <= 0 ==> addr_text(x, t, n) == x
local lemma[C15] addr_one using slash_text: forall x bytes, t int, n int :: {addr_text(x, t, n)} t > 0 && n <= 0 && hint(cut(x, '/', itoa(t))) ==> addr_text(x, t, n) == cut(x, '/', itoa(t))
local lemma[C15] addr_other using slash_text: forall x bytes, t int, n int :: {addr_text(x, t, n)} t <= 0 && n > 0 && hint(cut(x, '/', itoa(n))) ==> addr_text(x, t, n) == cut(x, '/', itoa(n))
local lemma[C15] addr_both using none: forall x bytes, t int, n int :: {addr_text(x, t, n)} t > 0 && n > 0 ==> addr_text(x, t, n) == cut(x, '/', cut(itoa(t), '/', itoa(n)))
local lemma[C15] addr_char using addr_none, addr_one, addr_other, addr_both, cut_char, itoa_char opaque: forall x bytes, t int, n int, a bytes :: {addr_text(x, t, n), ichar(a, ' ')} a == addr_text(x, t, n) && ichar(x, ' ') < 0 && hint(ichar(itoa(t), ' ')) && hint(ichar(itoa(n), ' ')) && hint(ichar(cut(itoa(t), '/', itoa(n)), ' ')) ==> ichar(a, ' ') < 0
local lemma[C15] addr_word using addr_char, addr_none, addr_one, addr_other, addr_both, cut_len opaque: forall x bytes, t int, n int, a bytes :: {addr_text(x, t, n), word(a)} a == addr_text(x, t, n) && word(x) && hint(ichar(a, ' ')) && hint(len(a)) ==> word(a)
local lemma[C15] addr_parts using addr_none, addr_one, addr_other, addr_both, addr_0, addr_1, addr_2, itoa_char, cut_len opaque: forall x bytes, t int, n int, a bytes :: {addr_text(x, t, n), part(a, '/', 0)} a == addr_text(x, t, n) && ichar(x, '/') < 0 && hint(ichar(itoa(t), '/')) && hint(ichar(itoa(n), '/')) ==>
  part(a, '/', 0) == x && part(a, '/', 1) == (t > 0 ? itoa(t) : n > 0 ? itoa(n) : "") && part(a, '/', 2) == (t > 0 && n > 0 ? itoa(n) : "") && cnt(a, '/', len(a)) <= 2
local lemma[C15] conn_text_3 using none: forall n bytes, k bytes, x bytes, t int, m int :: {cut(n, ' ', cut(k, ' ', addr_text(x, t, m)))} n + " " + k + " " + x + (t > 0 ? "/" + itoa(t) : "") + (m > 0 ? "/" + itoa(m) : "") == cut(n, ' ', cut(k, ' ', addr_text(x, t, m)))
spec byte_number(n int) bool = 0 <= n && n < 256
local lemma[C15] conn_parts using cut_3, addr_word, addr_parts opaque: forall n bytes, k bytes, x bytes, t int, m int, v bytes :: {cut(n, ' ', cut(k, ' ', addr_text(x, t, m))), part(v, ' ', 0)} v == cut(n, ' ', cut(k, ' ', addr_text(x, t, m))) && word(n) && word(k) && word(x) && ichar(x, '/') < 0 && hint(word(addr_text(x, t, m))) && hint(part(part(v, ' ', 2), '/', 0)) ==>
  nfields(v, ' ') == 3 && part(v, ' ', 0) == n && part(v, ' ', 1) == k && part(v, ' ', 2) == addr_text(x, t, m) && conn_base(v) == x && conn_first(v) == (t > 0 ? itoa(t) : m > 0 ? itoa(m) : "") && conn_second(v) == (t > 0 && m > 0 ? itoa(m) : "") && cnt(part(v, ' ', 2), '/', len(part(v, ' ', 2))) <= 2
local lemma[C15] conn_good using none: forall v bytes :: {conn_ok(v)} nfields(v, ' ') == 3 && part(v, ' ', 0) != "" && part(v, ' ', 1) != "" && part(v, ' ', 2) != "" && cnt(part(v, ' ', 2), '/', len(part(v, ' ', 2))) <= 2 && (conn_second(v) != "" ==> conn_v4(v)) && conn_numbers(v) ==> conn_ok(v)
local lemma[C15] conn_ttl_is using none: forall v bytes :: {conn_ttl(v)} conn_ttl(v) == (conn_second(v) != "" || conn_first(v) != "" && conn_v4(v) ? parseuint(conn_first(v)) : 0)
local lemma[C15] conn_addresses_is using none: forall v bytes :: {conn_addresses(v)} conn_addresses(v) == (conn_second(v) != "" ? parseuint(conn_second(v)) : conn_first(v) != "" && !conn_v4(v) ? parseuint(conn_first(v)) : 0)
local lemma[C15] conn_values using conn_parts, conn_good, conn_ttl_is, conn_addresses_is, itoa_parse8, itoa_len, addr_word opaque: forall n bytes, k bytes, x bytes, t int, m int, v bytes :: {cut(n, ' ', cut(k, ' ', addr_text(x, t, m))), conn_ok(v)} v == cut(n, ' ', cut(k, ' ', addr_text(x, t, m))) && word(n) && word(k) && word(x) && ichar(x, '/') < 0 && byte_number(t) && byte_number(m) && (to4(parseip(x)) != "" ? m > 0 ==> t > 0 : t == 0) &&
  hint(part(v, ' ', 0)) && hint(word(addr_text(x, t, m))) && hint(parseuint_ok(itoa(t), 8)) && hint(parseuint_ok(itoa(m), 8)) && hint(parseuint(itoa(t))) && hint(parseuint(itoa(m))) && hint(conn_ttl(v)) && hint(conn_addresses(v)) ==>
  conn_ok(v) && part(v, ' ', 0) == n && part(v, ' ', 1) == k && conn_base(v) == x && conn_ttl(v) == t && conn_addresses(v) == m
lemma[C15] connection_round_trip using conn_values, conn_text_3, ip_back, ip_text_char, ip_text_some opaque: forall net bytes, kind bytes, ip bytes, t int, m int, v bytes, n bytes, k bytes, x bytes :: {conn_ok(v), word(n), word(k), ip_text(ip), itoa(t), itoa(m), ichar(x, '/'), len(net), len(kind)} v == conn_text(net, kind, ip, t, m) && n == dflt(net, "IN") && k == (kind != "" ? kind : ip_kind(ip)) && x == ip_text(ip) && word(n) && word(k) && ip_wf(ip) && byte_number(t) && byte_number(m) && (to4(ip) != "" ? m > 0 ==> t > 0 : t == 0) &&
  hint(word(x)) && hint(ichar(x, ' ')) && hint(parseip(x)) && hint(cut(n, ' ', cut(k, ' ', addr_text(x, t, m)))) ==>
  conn_ok(v) && part(v, ' ', 0) == n && part(v, ' ', 1) == k && conn_ttl(v) == t && conn_addresses(v) == m && (to4(ip) != "" ? to4(parseip(conn_base(v))) == to4(ip) : parseip(conn_base(v)) == ip)
// repeat times
local lemma[C15] snoc_cnt induction n using cut_before, none_cnt, cut_mid, cut_right, cnt_step, cnt_zero opaque: forall a bytes, c int, x bytes, n int, m int :: {cnt(cut(a, c, x), c, n), cnt(a, c, m)} 0 <= c && c < 256 && ichar(x, c) < 0 && m == len(a) && len(a) < n && n <= len(a) + 1 + len(x) && hint(x[n-len(a)-2]) && hint(cut(a, c, x)[n-1]) ==> cnt(cut(a, c, x), c, n) == cnt(a, c, m) + 1
local lemma[C15] snoc_old_at induction n using cut_fld_before, cut_before, snoc_cnt, fld_step, cut_mid opaque: forall a bytes, c int, x bytes, k int, n int, m int :: {fld(cut(a, c, x), c, k, n), fld(a, c, k, m)} 0 <= c && c < 256 && ichar(x, c) < 0 && m == len(a) && len(a) <= n && n <= len(a) + 1 + len(x) && k <= cnt(a, c, m) && hint(cut(a, c, x)[len(a)]) && hint(cut(a, c, x)[n-1]) && hint(fld(cut(a, c, x), c, k, n-1)) && hint(cnt(cut(a, c, x), c, n-1)) && hint(cnt(a, c, m)) ==> fld(cut(a, c, x), c, k, n) == fld(a, c, k, m)
local lemma[C15] snoc_new_at induction n using cut_fld_before, fld_none, snoc_cnt, fld_step, cut_mid, cut_right, snoc_sub opaque: forall a bytes, c int, x bytes, k int, n int, m int :: {fld(cut(a, c, x), c, k, n), x[:m]} 0 <= c && c < 256 && ichar(x, c) < 0 && m == n - len(a) - 1 && 0 <= m && m <= len(x) && k == cnt(a, c, len(a)) + 1 && hint(cut(a, c, x)[n-1]) && hint(fld(cut(a, c, x), c, k, n-1)) && hint(cnt(cut(a, c, x), c, n-1)) && hint(cnt(a, c, len(a))) && hint(x[:m-1]) && hint(x[m-1]) && hint(fld(a, c, k, len(a))) && hint(cut(a, c, x)[len(a)]) ==> fld(cut(a, c, x), c, k, n) == x[:m]
local lemma[C15] snoc_new_end using snoc_new_at opaque: forall a bytes, c int, x bytes, k int, n int :: {fld(cut(a, c, x), c, k, n)} 0 <= c && c < 256 && ichar(x, c) < 0 && n == len(a) + 1 + len(x) && k == cnt(a, c, len(a)) + 1 && hint(x[:n-len(a)-1]) ==> fld(cut(a, c, x), c, k, n) == x
local lemma[C15] snoc_count using snoc_cnt, cut_len: forall a bytes, c int, x bytes :: {nfields(cut(a, c, x), c)} 0 <= c && c < 256 && ichar(x, c) < 0 && hint(cnt(a, c, len(a))) ==> nfields(cut(a, c, x), c) == nfields(a, c) + 1
local lemma[C15] snoc_old using snoc_old_at, cut_len: forall a bytes, c int, x bytes, k int :: {part(cut(a, c, x), c, k)} 0 <= c && c < 256 && ichar(x, c) < 0 && k < nfields(a, c) && hint(fld(a, c, k, len(a))) ==> part(cut(a, c, x), c, k) == part(a, c, k)
local lemma[C15] snoc_new using snoc_new_end, cut_len: forall a bytes, c int, x bytes, k int :: {part(cut(a, c, x), c, k)} 0 <= c && c < 256 && ichar(x, c) < 0 && k == nfields(a, c) && hint(x[:len(x)]) ==> part(cut(a, c, x), c, k) == x
def iv(d int, z bool) bytes = interval(d, z)
local lemma[C15] word_unit using none: forall a bytes, u int :: {word(a + byte(u))} word(a) && 0 <= u && u < 256 && u != ' ' && hint(a[ichar(a + byte(u), ' ')]) && hint((a + byte(u))[ichar(a + byte(u), ' ')]) ==> word(a + byte(u))
local lemma[C15] word_zero using none: forall x bytes :: {word(x)} x == "0" && hint(x[ichar(x, ' ')]) && hint(ichar(x, ' ')) ==> word(x)
local lemma[C15] compact_word using word_unit, word_zero, word_itoa: forall d int :: {word(compact(d))} hint(word(itoa(d / 86400000000000) + byte('d'))) && hint(word(itoa(d / 86400000000000))) && hint(word(itoa(d / 3600000000000) + byte('h'))) && hint(word(itoa(d / 3600000000000))) && hint(word(itoa(d / 60000000000) + byte('m'))) && hint(word(itoa(d / 60000000000))) && hint(word(itoa(truncfloat(seconds(d))))) && hint(word("0")) ==> word(compact(d))
local lemma[C15] plain_word using word_zero, word_itoa: forall d int :: {word(plainsec(d))} hint(word(itoa(truncfloat(seconds(d))))) && hint(word("0")) ==> word(plainsec(d))
local lemma[C15] iv_open using none: forall d int, z bool :: {iv(d, z)} iv(d, z) == (z ? compact(d) : plainsec(d))
local lemma[C15] iv_word using iv_open, compact_word, plain_word opaque: forall d int, z bool :: {word(iv(d, z))} hint(word(compact(d))) && hint(word(plainsec(d))) ==> word(iv(d, z))
spec whole(d int) bool = int64(d) && d % 1000000000 == 0
local lemma[C15] iv_back using iv_open, dur_compact, dur_seconds opaque: forall d int, z bool :: {iv(d, z)} whole(d) && hint(dur_ok(iv(d, z))) ==> dur_ok(iv(d, z)) && dur_value(iv(d, z)) == d
local lemma[C15] offs_one using none: forall v seq(int), z bool, n int :: {offsets_text(v, n, z)} n == 1 && hint(iv(v[0], z)) ==> offsets_text(v, n, z) == iv(v[0], z)
local lemma[C15] offs_more using none: forall v seq(int), z bool, n int, m int :: {offsets_text(v, n, z), offsets_text(v, m, z)} n > 1 && m == n - 1 && hint(iv(v[m], z)) ==> offsets_text(v, n, z) == cut(offsets_text(v, m, z), ' ', iv(v[m], z))
local lemma[C15] offs_count induction n using offs_one, offs_more, snoc_count, one_field, iv_word opaque: forall v seq(int), z bool, n int :: {nfields(offsets_text(v, n, z), ' ')} 1 <= n && hint(offsets_text(v, n-1, z)) && hint(word(iv(v[n-1], z))) && hint(nfields(cut(offsets_text(v, n-1, z), ' ', iv(v[n-1], z)), ' ')) && hint(nfields(offsets_text(v, n-1, z), ' ')) && hint(nfields(iv(v[0], z), ' ')) ==> nfields(offsets_text(v, n, z), ' ') == n
local lemma[C15] offs_part induction n using offs_one, offs_more, snoc_old, snoc_new, part_whole, offs_count, iv_word opaque: forall v seq(int), z bool, k int, n int :: {part(offsets_text(v, n, z), ' ', k)} 0 <= k && k < n && hint(offsets_text(v, n-1, z)) && hint(word(iv(v[n-1], z))) && hint(part(cut(offsets_text(v, n-1, z), ' ', iv(v[n-1], z)), ' ', k)) && hint(nfields(offsets_text(v, n-1, z), ' ')) && hint(part(offsets_text(v, n-1, z), ' ', k)) && hint(part(iv(v[0], z), ' ', k)) ==> part(offsets_text(v, n, z), ' ', k) == iv(v[k], z)
local lemma[C15] word_last using none: forall x bytes, i int :: {word(x), x[i]} word(x) && 0 <= i && i < len(x) ==> x[i] != ' '
spec tight(s bytes) bool = s != "" && s[len(s)-1] != ' '
local lemma[C15] tight_word using word_last: forall x bytes :: {word(x), tight(x)} word(x) && hint(x[len(x)-1]) ==> tight(x)
local lemma[C15] tight_cut using cut_len, cut_right: forall a bytes, x bytes :: {tight(cut(a, ' ', x))} tight(x) && hint(cut(a, ' ', x)[len(cut(a, ' ', x))-1]) && hint(x[len(x)-1]) ==> tight(cut(a, ' ', x))
local lemma[C15] offs_tight induction n using offs_one, offs_more, tight_word, tight_cut, iv_word opaque: forall v seq(int), z bool, n int :: {tight(offsets_text(v, n, z))} 1 <= n && hint(offsets_text(v, n-1, z)) && hint(word(iv(v[n-1], z))) && hint(tight(iv(v[n-1], z))) && hint(tight(cut(offsets_text(v, n-1, z), ' ', iv(v[n-1], z)))) ==> tight(offsets_text(v, n, z))
local lemma[C15] single_tight using single_snoc: forall a bytes, x bytes, n int :: {single(cut(a, ' ', x), n)} n == len(cut(a, ' ', x)) && tight(a) && single(a, len(a)) && single(x, len(x)) ==> single(cut(a, ' ', x), n)
local lemma[C15] offs_single induction n using offs_one, offs_more, single_tight, single_of, offs_tight, iv_word opaque: forall v seq(int), z bool, n int, m int :: {single(offsets_text(v, n, z), m)} 1 <= n && m == len(offsets_text(v, n, z)) && hint(offsets_text(v, n-1, z)) && hint(word(iv(v[n-1], z))) && hint(tight(offsets_text(v, n-1, z))) && hint(single(offsets_text(v, n-1, z), len(offsets_text(v, n-1, z)))) && hint(single(iv(v[n-1], z), len(iv(v[n-1], z)))) ==> single(offsets_text(v, n, z), m)
local lemma[C15] rest_2 using parts_count, part_first, part_rest opaque: forall a bytes, b bytes, f bytes, v bytes :: {cut(a, ' ', cut(b, ' ', f)), part(v, ' ', 0)} v == cut(a, ' ', cut(b, ' ', f)) && word(a) && word(b) && hint(nfields(v, ' ')) && hint(part(v, ' ', 1)) ==> nfields(v, ' ') == 2 + nfields(f, ' ') && part(v, ' ', 0) == a && part(v, ' ', 1) == b
local lemma[C15] rest_2_part using part_rest opaque: forall a bytes, b bytes, f bytes, v bytes, k int :: {cut(a, ' ', cut(b, ' ', f)), part(v, ' ', k)} v == cut(a, ' ', cut(b, ' ', f)) && word(a) && word(b) && 2 <= k && hint(part(cut(b, ' ', f), ' ', k-1)) ==> part(v, ' ', k) == part(f, ' ', k-2)
local lemma[C15] rest_2_single using single_more opaque: forall a bytes, b bytes, f bytes, n int :: {single(cut(a, ' ', cut(b, ' ', f)), n)} n == len(cut(a, ' ', cut(b, ' ', f))) && word(a) && word(b) && single(f, len(f)) && hint(single(cut(b, ' ', f), len(cut(b, ' ', f)))) ==> single(cut(a, ' ', cut(b, ' ', f)), n)
local lemma[C15] repeat_text_cut using none: forall i int, d int, o seq(int), z bool, n int :: {cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z)))} n == len(o) ==> repeat_text(i, d, o, z) == cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z)))
spec all_whole(o seq(int)) bool = forall k int :: {o[k]} 0 <= k && k < len(o) ==> whole(o[k])
local lemma[C15] repeat_part using rest_2, rest_2_part, offs_part, iv_word opaque: forall i int, d int, o seq(int), z bool, n int, k int, v bytes :: {cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))), part(v, ' ', k)} v == cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))) && 0 <= k && k < n + 2 && hint(word(iv(i, z))) && hint(word(iv(d, z))) && hint(part(v, ' ', 0)) && hint(part(offsets_text(o, n, z), ' ', k-2)) ==>
  part(v, ' ', k) == iv(k == 0 ? i : k == 1 ? d : o[k-2], z)
local lemma[C15] repeat_value using repeat_part, iv_back opaque: forall i int, d int, o seq(int), z bool, n int, k int, v bytes :: {cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))), part(v, ' ', k)} v == cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))) && 0 <= k && k < n + 2 && n == len(o) && whole(i) && whole(d) && all_whole(o) && hint(o[k-2]) ==>
  dur_ok(part(v, ' ', k)) && dur_value(part(v, ' ', k)) == (k == 0 ? i : k == 1 ? d : o[k-2])
local lemma[C15] repeat_shape using rest_2, rest_2_single, offs_single, offs_count, iv_word opaque: forall i int, d int, o seq(int), z bool, n int, m int, v bytes :: {cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))), single(v, m)} v == cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z))) && n >= 1 && m == len(v) && hint(word(iv(i, z))) && hint(word(iv(d, z))) && hint(part(v, ' ', 0)) && hint(nfields(v, ' ')) && hint(nfields(offsets_text(o, n, z), ' ')) && hint(single(offsets_text(o, n, z), len(offsets_text(o, n, z)))) ==>
  single(v, m) && nfields(v, ' ') == n + 2
lemma[C15] repeat_round_trip using repeat_text_cut, repeat_value, repeat_shape opaque: forall i int, d int, o seq(int), z bool, n int, v bytes :: {single(v, len(v)), iv(i, z), iv(d, z), offsets_text(o, n, z)} v == repeat_text(i, d, o, z) && n == len(o) && n >= 1 && whole(i) && whole(d) && all_whole(o) && hint(cut(iv(i, z), ' ', cut(iv(d, z), ' ', offsets_text(o, n, z)))) && hint(nfields(v, ' ')) && hint(part(v, ' ', 0)) && hint(part(v, ' ', 1)) ==>
  repeat_ok(v) && nfields(v, ' ') == n + 2 && dur_value(part(v, ' ', 0)) == i && dur_value(part(v, ' ', 1)) == d && (forall k int :: {o[k]} 0 <= k && k < n && hint(part(v, ' ', k+2)) ==> dur_value(part(v, ' ', k+2)) == o[k])

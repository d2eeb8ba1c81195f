// Vocabulary shared by the contracts: byte strings and the library functions over them.

spec imin(a int, b int) int = a <= b ? a : b
spec imax(a int, b int) int = a <= b ? b : a
spec be16(s bytes, i int) int = s[i] * 256 + s[i+1]
spec bit7(b int) bool = b >= 128
spec bit6(b int) bool = b % 128 >= 64

// ---- searching
spec ichar(s bytes, c int) int range -1..281474976710656
axiom ichar_range: forall s bytes, c int :: {ichar(s, c)} ichar(s, c) < len(s) && (ichar(s, c) >= 0 ==> s[ichar(s, c)] == c)
axiom ichar_first: forall s bytes, c int, i int :: {ichar(s, c), s[i]} 0 <= i && i < len(s) && s[i] == c ==> 0 <= ichar(s, c) && ichar(s, c) <= i

spec sindex(s bytes, t bytes) int range -1..281474976710656
axiom sindex_found: forall s bytes, t bytes :: {sindex(s, t)} sindex(s, t) >= 0 ==> sindex(s, t) + len(t) <= len(s) && s[sindex(s, t):sindex(s, t)+len(t)] == t
axiom sindex_first: forall s bytes, t bytes, i int, j int :: {sindex(s, t), s[i:j]} 0 <= i && i <= j && j <= len(s) && s[i:j] == t ==> 0 <= sindex(s, t) && sindex(s, t) <= i

spec hasprefix(s bytes, t bytes) bool = len(t) <= len(s) && s[:len(t)] == t
spec hassuffix(s bytes, t bytes) bool = len(t) <= len(s) && s[len(s)-len(t):] == t

spec prefix(a bytes, b bytes) bool = len(a) <= len(b) && b[:len(a)] == a
spec seqprefix(a seq(bytes), b seq(bytes)) bool = len(a) <= len(b) && b[:len(a)] == a

spec joined(v seq(bytes), n int) bytes = n <= 0 ? "" : joined(v, n-1) + (n > 1 ? " " : "") + v[n-1]
spec strjoin(v seq(bytes), sep bytes) bytes
axiom join_blank: forall v seq(bytes) :: {strjoin(v, " ")} strjoin(v, " ") == joined(v, len(v))

spec splitall(s bytes, t bytes) seq(bytes) =
  sindex(s, t) < 0 ? unit(s) : unit(s[:sindex(s, t)]) + splitall(s[sindex(s, t)+len(t):], t)

// ---- text functions of the library, by name
spec toupper(s bytes) bytes
spec tolower(s bytes) bytes
spec trimspace(s bytes) bytes
spec trimset(s bytes, cut bytes) bytes
spec replaceall(s bytes, a bytes, b bytes) bytes
spec atoi(s bytes) int range -9223372036854775808..9223372036854775807
spec atoi_ok(s bytes) bool
spec itoa(n int) bytes

// decimal numbers
spec dec(n int) bytes = n < 10 ? byte('0' + n) : dec(n / 10) + byte('0' + n % 10)
spec digits(s bytes, n int) bool = n <= 0 ? true : digits(s, n-1) && '0' <= s[n-1] && s[n-1] <= '9'
spec decval(s bytes, n int) int = n <= 0 ? 0 : decval(s, n-1) * 10 + s[n-1] - '0'
local axiom itoa_dec: forall n int :: {itoa(n)} 0 <= n ==> itoa(n) == dec(n)
lemma itoa_digit using itoa_dec: forall n int :: {itoa(n)} 0 <= n && n < 10 && hint(dec(n)) ==> itoa(n) == byte('0' + n)
local axiom itoa_neg: forall n int :: {itoa(n)} n < 0 ==> itoa(n) == "-" + dec(-n)
spec sign_len(s bytes) int = len(s) > 0 && (s[0] == '-' || s[0] == '+') ? 1 : 0
def unsigned(s bytes) bytes = s[sign_len(s):]
spec number(s bytes) bool = len(s) > 0 && digits(s, len(s))
spec intval(s bytes) int = len(s) > 0 && s[0] == '-' ? -decval(unsigned(s), len(unsigned(s))) : decval(unsigned(s), len(unsigned(s)))
local axiom atoi_syntax: forall s bytes :: {atoi_ok(s)} atoi_ok(s) <==> number(unsigned(s)) && -9223372036854775808 <= intval(s) && intval(s) <= 9223372036854775807
local axiom atoi_value: forall s bytes :: {atoi(s)} atoi_ok(s) ==> atoi(s) == intval(s)
// the decimal form of a number is the shortest one that reads back as the number
local lemma[C15,C16] digits_cat induction n: forall a bytes, b bytes, n int :: {digits(a + b, n), digits(a, n)} n <= len(a) ==> digits(a + b, n) == digits(a, n) && decval(a + b, n) == decval(a, n)
local lemma[C15,C16] dec_len induction n: forall n int :: {dec(n)} 0 <= n ==> len(dec(n)) >= 1
local lemma[C15,C16] dec_digits induction n using digits_cat, dec_len: forall n int :: {dec(n)} 0 <= n && hint(digits(dec(n), len(dec(n)))) && hint(digits(dec(n/10), len(dec(n/10)))) && hint(digits(dec(n), len(dec(n/10)))) ==> digits(dec(n), len(dec(n))) && decval(dec(n), len(dec(n))) == n
local lemma[C16] dec_first induction n using dec_len: forall n int :: {dec(n)} 0 < n && hint(dec(n/10)) ==> dec(n)[0] != '0'
local lemma[C15,C16] digit_each induction n: forall s bytes, i int, n int :: {digits(s, n), s[i]} 0 <= i && i < n && digits(s, n) ==> '0' <= s[i] && s[i] <= '9'
local lemma[C15,C16] dec_sign using dec_digits, dec_len, digit_each opaque: forall n int :: {dec(n)} 0 <= n && hint(dec(n)[0]) ==> '0' <= dec(n)[0] && dec(n)[0] <= '9'
local lemma[C15,C16] dec_unsigned using dec_sign, dec_len: forall n int :: {dec(n)} 0 <= n ==> unsigned(dec(n)) == dec(n)
local lemma[C15,C16] dec_plain using dec_digits, dec_len, dec_unsigned, dec_sign opaque: forall n int :: {dec(n)} 0 <= n ==> number(unsigned(dec(n))) && intval(dec(n)) == n
local lemma[C15,C16] minus_unsigned using none: forall s bytes :: {unsigned("-" + s)} unsigned("-" + s) == s
local lemma[C15,C16] dec_minus using dec_digits, dec_len, minus_unsigned opaque: forall n int :: {dec(n)} 0 < n ==> unsigned("-" + dec(n)) == dec(n) && number(unsigned("-" + dec(n))) && intval("-" + dec(n)) == -n
local lemma[C15,C16] atoi_plain using dec_plain, atoi_syntax, atoi_value opaque: forall n int :: {dec(n)} 0 <= n && n <= 9223372036854775807 && hint(atoi_ok(dec(n))) && hint(atoi(dec(n))) ==> atoi_ok(dec(n)) && atoi(dec(n)) == n
local lemma[C15,C16] atoi_minus using dec_minus, minus_unsigned, atoi_syntax, atoi_value opaque: forall n int :: {dec(n)} 0 < n && n <= 9223372036854775808 && hint(atoi_ok("-" + dec(n))) && hint(atoi("-" + dec(n))) ==> atoi_ok("-" + dec(n)) && atoi("-" + dec(n)) == -n
lemma[C15,C16] itoa_atoi using itoa_dec, itoa_neg, atoi_plain, atoi_minus opaque: forall n int :: {atoi(itoa(n))} {atoi_ok(itoa(n))} -9223372036854775808 <= n && n <= 9223372036854775807 && hint(dec(n)) && hint(dec(-n)) ==> atoi_ok(itoa(n)) && atoi(itoa(n)) == n

extern strings.Index(s, t) (r) { ensures r == sindex(s, t) }
extern strings.IndexByte(s, c) (r) { ensures r == ichar(s, c) }
extern bytes.Index(s, t) (r) { ensures r == sindex(bytes(s), bytes(t)) }
extern bytes.IndexByte(s, c) (r) { ensures r == ichar(bytes(s), c) }
extern strings.Contains(s, t) (r) { ensures r <==> sindex(s, t) >= 0 }
extern bytes.Contains(s, t) (r) { ensures r <==> sindex(bytes(s), bytes(t)) >= 0 }
extern strings.HasPrefix(s, t) (r) { ensures r <==> hasprefix(s, t) }
extern strings.HasSuffix(s, t) (r) { ensures r <==> hassuffix(s, t) }
extern bytes.HasPrefix(s, t) (r) { ensures r <==> hasprefix(bytes(s), bytes(t)) }
extern bytes.HasSuffix(s, t) (r) { ensures r <==> hassuffix(bytes(s), bytes(t)) }
extern bytes.Equal(a, b) (r) { ensures r <==> bytes(a) == bytes(b) }
extern bytes.Compare(a, b) (r) { ensures -1 <= r && r <= 1 && (r == 0 <==> bytes(a) == bytes(b)) }
extern strings.ToUpper(s) (r) { ensures r == toupper(s) }
extern strings.ToLower(s) (r) { ensures r == tolower(s) }
extern strings.EqualFold(s, t) (r) { ensures r <==> toupper(s) == toupper(t) }
extern strings.TrimSpace(s) (r) { ensures r == trimspace(s) }
extern strings.Trim(s, c) (r) { ensures r == trimset(s, c) }
extern strings.Replace(s, a, b, n) (r) {
  requires n < 0
  ensures r == replaceall(s, a, b)
}
extern strings.ReplaceAll(s, a, b) (r) { ensures r == replaceall(s, a, b) }
extern strings.Split(s, t) (r) {
  requires len(t) > 0
  ensures fresh(r)
  ensures bytes(r) == splitall(s, t)
  ensures len(r) >= 1
}
extern strings.SplitN(s, t, n) (r) {
  requires len(t) > 0 && n == 2
  ensures fresh(r)
  ensures sindex(s, t) < 0 ==> len(r) == 1 && r[0] == s
  ensures sindex(s, t) >= 0 ==> len(r) == 2 && r[0] == s[:sindex(s, t)] && r[1] == s[sindex(s, t)+len(t):]
}
extern strings.Cut(s, t) (a, b, ok) {
  ensures ok <==> sindex(s, t) >= 0
  ensures ok ==> a == s[:sindex(s, t)] && b == s[sindex(s, t)+len(t):]
  ensures !ok ==> a == s && b == ""
}
extern strconv.Atoi(s) (n, err) {
  ensures n == atoi(s)
  ensures err == nil <==> atoi_ok(s)
}
extern strconv.Itoa(n) (r) { ensures r == itoa(n) }
extern errors.New(s) (e) { ensures e != nil }

// how far a moment lies ahead of now
spec ahead(t time.Time) int
axiom ahead_zero: ahead(zero("time.Time")) == -1
extern time.Now() (t) { ensures ahead(t) == 0 }
extern (time.Time).Add(t, d) (r) { ensures ahead(r) == ahead(t) + d }

// waiting: the duration asked for last
ghost waited int
extern time.After(d) (ch) {
  modifies waited
  ensures ch != nil && waited == d
}
extern time.NewTimer(d) (t) {
  modifies waited
  ensures t != nil && t.C != nil && waited == d
}
extern (*time.Timer).Stop(t) (b) { }

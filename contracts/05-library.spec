// Library functions the code does not use today but may come to use: so that a change of implementation stays decidable.

spec slastindex(s bytes, t bytes) int range -1..281474976710656
axiom slastindex_found: forall s bytes, t bytes :: {slastindex(s, t)} slastindex(s, t) >= 0 ==> slastindex(s, t) + len(t) <= len(s) && s[slastindex(s, t):slastindex(s, t)+len(t)] == t
axiom slastindex_some: forall s bytes, t bytes :: {slastindex(s, t), sindex(s, t)} (slastindex(s, t) < 0 <==> sindex(s, t) < 0) && sindex(s, t) <= slastindex(s, t)
axiom slastindex_last: forall s bytes, t bytes, i int, j int :: {slastindex(s, t), s[i:j]} 0 <= i && i <= j && j <= len(s) && s[i:j] == t ==> i <= slastindex(s, t)
extern strings.LastIndex(s, t) (r) { ensures r == slastindex(s, t) }
extern bytes.LastIndex(s, t) (r) { ensures r == slastindex(bytes(s), bytes(t)) }
extern strings.LastIndexByte(s, c) (r) { ensures r == slastindex(s, byte(c)) }
extern bytes.LastIndexByte(s, c) (r) { ensures r == slastindex(bytes(s), byte(c)) }
extern strings.IndexRune(s, c) (r) {
  ensures -1 <= r && r < len(s)
  ensures 0 <= c && c < 128 ==> r == ichar(s, c)
}
extern strings.ContainsRune(s, c) (r) { ensures 0 <= c && c < 128 ==> (r <==> ichar(s, c) >= 0) }
extern strings.IndexAny(s, t) (r) { ensures -1 <= r && r < len(s) }
extern strings.ContainsAny(s, t) (r) { }
extern strings.Count(s, t) (r) { ensures r >= 0 && (len(t) > 0 ==> (r == 0 <==> sindex(s, t) < 0)) }
extern strings.TrimPrefix(s, t) (r) { ensures r == (hasprefix(s, t) ? s[len(t):] : s) }
extern strings.TrimSuffix(s, t) (r) { ensures r == (hassuffix(s, t) ? s[:len(s)-len(t)] : s) }
extern bytes.TrimPrefix(s, t) (r) { ensures bytes(r) == (hasprefix(bytes(s), bytes(t)) ? bytes(s)[len(t):] : bytes(s)) }
extern bytes.TrimSuffix(s, t) (r) { ensures bytes(r) == (hassuffix(bytes(s), bytes(t)) ? bytes(s)[:len(s)-len(t)] : bytes(s)) }
spec trimleft(s bytes, cut bytes) bytes
spec trimright(s bytes, cut bytes) bytes
extern strings.TrimLeft(s, c) (r) { ensures r == trimleft(s, c) && len(r) <= len(s) }
extern strings.TrimRight(s, c) (r) { ensures r == trimright(s, c) && len(r) <= len(s) }
spec fields_of(s bytes) seq(bytes)
extern strings.Fields(s) (r) { ensures fresh(r) && bytes(r) == fields_of(s) }
spec repeated(s bytes, n int) bytes
extern strings.Repeat(s, n) (r) {
  requires n >= 0
  ensures r == repeated(s, n) && len(r) == n * len(s)
}
extern strings.SplitAfter(s, t) (r) { ensures fresh(r) && len(r) >= 1 }
extern strconv.ParseInt(s, base, bits) (n, err) {
  ensures base == 10 && bits == 64 ==> n == atoi(s) && (err == nil <==> atoi_ok(s))
}
extern strconv.FormatInt(n, base) (r) { ensures base == 10 ==> r == itoa(n) }
extern strconv.FormatUint(n, base) (r) { ensures base == 10 ==> r == itoa(n) }
extern strconv.Quote(s) (r) { }
extern (binary.bigEndian).Uint16(e, b) (n) {
  requires len(b) >= 2
  ensures n == b[0] * 256 + b[1]
}
extern (binary.bigEndian).Uint32(e, b) (n) {
  requires len(b) >= 4
  ensures n == ((b[0] * 256 + b[1]) * 256 + b[2]) * 256 + b[3]
}
extern (binary.littleEndian).Uint16(e, b) (n) {
  requires len(b) >= 2
  ensures n == b[1] * 256 + b[0]
}
extern (binary.bigEndian).PutUint16(e, b, v) {
  requires len(b) >= 2
  modifies b[*]
  ensures bytes(b) == byte(v / 256) + byte(v % 256) + old(bytes(b))[2:]
}
extern (*sync.Mutex).Lock(m) { }
extern (*sync.Mutex).Unlock(m) { }
extern (*sync.RWMutex).Lock(m) { }
extern (*sync.RWMutex).Unlock(m) { }
extern (*sync.RWMutex).RLock(m) { }
extern (*sync.RWMutex).RUnlock(m) { }
extern time.Since(t) (d) { }
extern time.Until(t) (d) { }
extern (time.Time).Sub(t, u) (d) { }
extern (time.Time).Before(t, u) (b) { }
extern (time.Time).After(t, u) (b) { }

// What the client takes from a session description.

spec attr_value(a map(bytes,seq(bytes)), k bytes) bytes = k in a && len(a[k]) > 0 ? a[k][0] : ""
func (sdp.Attributes).Value(a, attribute) (r) {
  requires true
  ensures[C18,C19] first: r == attr_value(a, attribute)
}
func rtspclient.parsingSDPLine(text) (m, err) {
  requires true
  ensures[C19] verdict: err == nil <==> lines_ok(text, 0) && decodes(lines(text, 0))
  ensures err == nil ==> m != nil
  ensures[C19] medias: err == nil ==> bytes(m.Medias) == medias_of(lines(text, 0), 0, len(lines(text, 0)))
}

// RFC 3551: static payload types
def static_codec(p int) bytes =
  p == 0 ? "PCMU" : p == 3 ? "GSM" : p == 4 ? "G723" : p == 5 || p == 6 || p == 16 || p == 17 ? "DVI4" : p == 7 ? "LPC" : p == 8 ? "PCMA" : p == 9 ? "G722" :
  p == 10 || p == 11 ? "L16" : p == 12 ? "QCELP" : p == 13 ? "CN" : p == 14 ? "MPA" : p == 15 ? "G728" : p == 18 ? "G729" :
  p == 25 ? "CelB" : p == 26 ? "JPEG" : p == 28 ? "nv" : p == 31 ? "H261" : p == 32 ? "MPV" : p == 33 ? "MP2T" : p == 34 ? "H263" : ""
def static_clock(p int) int = static_codec(p) == "" ? 0 : p >= 25 || p == 14 ? 90000 : p == 10 || p == 11 ? 44100 : p == 6 ? 16000 : p == 16 ? 11025 : p == 17 ? 22050 : 8000
def static_channels(p int) int = static_codec(p) == "" ? 0 : p >= 25 || p == 14 ? -1 : p == 10 ? 2 : 1
func rtspclient.getPayloadInfo(p) (codec, kind, clock, channels) {
  requires true
  ensures[C19] table: codec == static_codec(p) && clock == static_clock(p) && channels == static_channels(p)
}

// words separated by blanks; fmt.Sscanf reads them one after the other
spec nonempty(p seq(bytes), n int) seq(bytes) = n <= 0 ? none("seq(bytes)") : p[n-1] == "" ? nonempty(p, n-1) : nonempty(p, n-1) + unit(p[n-1])
def words(s bytes) seq(bytes) = nonempty(splitall(s, " "), len(splitall(s, " ")))
spec printable(s bytes) bool = forall i int :: {s[i]} 0 <= i && i < len(s) ==> 32 <= s[i] && s[i] <= 126
def number_at(w seq(bytes), k int, otherwise int) int = k < len(w) ? atoi(w[k]) : otherwise
spec numeric(w seq(bytes), k int) bool = k < len(w) ==> atoi_ok(w[k])
spec sscan_int(f bytes, s bytes, k int, o int) int
spec sscan_str(f bytes, s bytes, k int, o bytes) bytes
local axiom scan_codec: forall s bytes, o bytes :: {sscan_str("%d %s %d %d", s, 1, o)} printable(s) && numeric(words(s), 0) ==> sscan_str("%d %s %d %d", s, 1, o) == (len(words(s)) > 1 ? words(s)[1] : o)
local axiom scan_clock: forall s bytes, o int :: {sscan_int("%d %s %d %d", s, 2, o)} printable(s) && numeric(words(s), 0) && numeric(words(s), 2) ==> sscan_int("%d %s %d %d", s, 2, o) == number_at(words(s), 2, o)
local axiom scan_channels: forall s bytes, o int :: {sscan_int("%d %s %d %d", s, 3, o)} printable(s) && numeric(words(s), 0) && numeric(words(s), 2) && numeric(words(s), 3) ==> sscan_int("%d %s %d %d", s, 3, o) == number_at(words(s), 3, o)
local axiom scan_first: forall s bytes, o int :: {sscan_int("%d %d", s, 0, o)} printable(s) && numeric(words(s), 0) ==> sscan_int("%d %d", s, 0, o) == number_at(words(s), 0, o)
local axiom scan_second: forall s bytes, o int :: {sscan_int("%d %d", s, 1, o)} printable(s) && numeric(words(s), 0) && numeric(words(s), 1) ==> sscan_int("%d %d", s, 1, o) == number_at(words(s), 1, o)

// rtpmap: "format codec/clock/channels", the last two may be missing
def rtpmap_codec(v bytes, codec bytes) bool = let s = replaceall(v, "/", " ") in printable(s) && numeric(words(s), 0) ==> codec == (len(words(s)) > 1 ? words(s)[1] : "")
def rtpmap_clock(v bytes, n int) bool = let s = replaceall(v, "/", " ") in printable(s) && numeric(words(s), 0) && numeric(words(s), 2) ==> n == number_at(words(s), 2, -1)
def rtpmap_channels(v bytes, n int) bool = let s = replaceall(v, "/", " ") in printable(s) && numeric(words(s), 0) && numeric(words(s), 2) && numeric(words(s), 3) ==> n == number_at(words(s), 3, -1)
func rtspclient.getPayloadInfoForRtpmap(v) (codec, clock, channels) {
  requires true
  using scan_codec, scan_clock, scan_channels
  ensures[C19] codec: rtpmap_codec(v, codec)
  ensures[C19] clock: rtpmap_clock(v, clock)
  ensures[C19] channels: rtpmap_channels(v, channels)
}
def dimension_first(v bytes, n int) bool = let s = replaceall(v, ",", " ") in printable(s) && numeric(words(s), 0) ==> n == number_at(words(s), 0, 0)
def dimension_second(v bytes, n int) bool = let s = replaceall(v, ",", " ") in printable(s) && numeric(words(s), 0) && numeric(words(s), 1) ==> n == number_at(words(s), 1, 0)
func rtspclient.getSizeForXDimensions(v) (width, height) {
  requires true
  using scan_first, scan_second
  ensures[C19] width: dimension_first(v, width)
  ensures[C19] height: dimension_second(v, height)
}
func rtspclient.getFramerateForFramerate(v) (r) {
  requires true
  ensures[C19] rate: r == atoi(v)
}

// fmtp: items between blanks and semicolons; an item maps its name to its value
spec item_name(s bytes) bytes = sindex(s, "=") < 0 ? s : s[:sindex(s, "=")]
spec item_value(s bytes) bytes = sindex(s, "=") < 0 ? "" : s[sindex(s, "=")+1:]
def item_step(m map(bytes,bytes), s bytes) map(bytes,bytes) = s == "" ? m : mapupd(m, item_name(s), item_value(s))
spec items_of(m map(bytes,bytes), p seq(bytes), n int) map(bytes,bytes) = n <= 0 ? m : item_step(items_of(m, p, n-1), p[n-1])
spec fmtp_of(p seq(bytes), n int) map(bytes,bytes) = n <= 0 ? mapempty("map(bytes,bytes)") : items_of(fmtp_of(p, n-1), splitall(p[n-1], ";"), len(splitall(p[n-1], ";")))
func rtspclient.getFmtParame(v) (r) {
  requires true
  ensures fresh(r)
  ensures[C19] items: r == fmtp_of(splitall(v, " "), len(splitall(v, " ")))
  loop 1 {
    invariant[C19] fmtParame == fmtp_of(splitall(v, " "), $i)
  }
  loop 2 {
    invariant[C19] fmtParame == items_of(fmtp_of(splitall(v, " "), $i1), splitall(field, ";"), $i)
  }
}

def media_described(x rtspclient.MediaSubsession, m sdp.Media) bool =
  x.MediumName == m.Description.Type && x.PayloadFormat == atoi(splitall(m.Description.Format, " ")[0]) &&
  (static_codec(x.PayloadFormat) != "" || attr_value(m.Attributes, "rtpmap") == "" ? x.CodecName == static_codec(x.PayloadFormat) && x.RtpTimestampFrequency == static_clock(x.PayloadFormat) && x.Channels == static_channels(x.PayloadFormat) :
    rtpmap_codec(attr_value(m.Attributes, "rtpmap"), x.CodecName) && rtpmap_clock(attr_value(m.Attributes, "rtpmap"), x.RtpTimestampFrequency) && rtpmap_channels(attr_value(m.Attributes, "rtpmap"), x.Channels)) &&
  x.TrackURL == attr_value(m.Attributes, "control") &&
  (let v = attr_value(m.Attributes, "x-dimensions") in v == "" ? x.VideoWidth == 0 && x.VideoHeight == 0 : dimension_first(v, x.VideoWidth) && dimension_second(v, x.VideoHeight)) &&
  (let v = attr_value(m.Attributes, "framerate") in let w = attr_value(m.Attributes, "x-framerate") in x.VideoFramerate == (v != "" ? atoi(v) : w != "" ? atoi(w) : 0)) &&
  (let v = attr_value(m.Attributes, "fmtp") in x.Fmtp == (v == "" ? mapempty("map(bytes,bytes)") : fmtp_of(splitall(v, " "), len(splitall(v, " ")))))

// the medias a description yields
func rtspclient.parsingSDP(text) (r) {
  by C19, C02
  hide static_codec, static_clock, static_channels, rtpmap_codec, rtpmap_clock, rtpmap_channels, dimension_first, dimension_second, items_of, fmtp_of, splitall, words, medias_of, lines, lines_ok
  ensures[C02] ends: true
  requires[C10] answer_body: len(replies) > 0 && text == replies[len(replies)-1].content
  ensures r != nil ==> fresh(r) && fresh(r.Medias)
  ensures[C19] none: r == nil <==> !lines_ok(text, 0) || !decodes(lines(text, 0)) || len(medias_of(lines(text, 0), 0, len(lines(text, 0)))) == 0
  ensures[C19] count: r != nil ==> len(r.Medias) == len(medias_of(lines(text, 0), 0, len(lines(text, 0))))
  ensures[C19] medias: r != nil ==> forall k int :: {r.Medias[k]} 0 <= k && k < len(r.Medias) ==> media_described(r.Medias[k], medias_of(lines(text, 0), 0, len(lines(text, 0)))[k])
  loop 1 {
    invariant[C19] forall k int :: {sdpInfo.Medias[k]} 0 <= k && k < $i ==> media_described(sdpInfo.Medias[k], sdpMessage.Medias[k])
    invariant[C19] forall k int :: {sdpInfo.Medias[k]} $i <= k && k < len(sdpInfo.Medias) ==> sdpInfo.Medias[k] == zero("rtspclient.MediaSubsession")
    invariant len(sdpInfo.Medias) == len(sdpMessage.Medias)
  }
}

// RTP payload formats: H.264 (RFC 6184), H.265 (RFC 7798), marker and pass-through parsers.

const maxheld = 8388608

const tH264 = type("*rtspclient.H264RtpParser")
const tHevc = type("*rtspclient.HevcRtpParser")
const tMark = type("*rtspclient.MarkRtpParser")
const tSimple = type("*rtspclient.SimpleRtpParser")

// ---- H.264: p is the packet without its 12-byte header
spec h264_type(p bytes) int = p[0] % 32
spec h264_fu(p bytes) bool = h264_type(p) == 28 || h264_type(p) == 29
spec h264_agg(p bytes) bool = h264_type(p) >= 24 && h264_type(p) <= 27
spec h264_fudata(p bytes) bytes =
  bit7(p[1]) ? byte(p[0] - p[0] % 32 + p[1] % 32) + p[2:] : p[2:]
spec h264_skip(p bytes) int = h264_type(p) == 24 ? 1 : 3
spec h264_unithdr(t int) int = t == 24 || t == 25 ? 2 : (t == 26 ? 5 : 6)

spec h264_data(p bytes) bytes =
  len(p) == 0 ? p :
  h264_fu(p) ? (len(p) < 2 ? empty() : h264_fudata(p)) :
  h264_agg(p) ? (len(p) < h264_skip(p) ? empty() : p[h264_skip(p):]) : p
spec h264_done(p bytes) bool = len(p) == 0 || (h264_fu(p) ? len(p) >= 2 && bit6(p[1]) : true)
spec h264_kind(p bytes) int = len(p) > 0 && h264_agg(p) ? h264_type(p) : 0

// ---- H.265
spec hevc_type(p bytes) int = (p[0] / 2) % 64
spec hevc_fudata(p bytes) bytes =
  bit7(p[2]) ? byte((bit7(p[0]) ? 128 : 0) + (p[2] % 64) * 2 + p[0] % 2) + (byte(p[1]) + p[3:]) : p[3:]
spec hevc_data(p bytes) bytes =
  len(p) < 2 ? p :
  hevc_type(p) == 49 ? (len(p) < 3 ? empty() : hevc_fudata(p)) :
  hevc_type(p) == 48 ? p[2:] : p
spec hevc_done(p bytes) bool = len(p) >= 2 && (hevc_type(p) == 49 ? len(p) >= 3 && bit6(p[2]) : true)
spec hevc_kind(p bytes) int = len(p) >= 2 && hevc_type(p) == 48 ? 48 : 0

// ---- all formats: t is the parser's type, rtp a whole RTP packet
def split_data(t int, rtp bytes) bytes =
  t == tH264 ? h264_data(rtp[12:]) : (t == tHevc ? hevc_data(rtp[12:]) : rtp[12:])
def split_done(t int, rtp bytes) bool =
  t == tH264 ? h264_done(rtp[12:]) : (t == tHevc ? hevc_done(rtp[12:]) : (t == tMark ? bit7(rtp[1]) : true))
// kind of aggregation (0: none)
def split_kind(t int, rtp bytes) int =
  t == tH264 ? h264_kind(rtp[12:]) : (t == tHevc ? hevc_kind(rtp[12:]) : 0)
def head_kind(t int, h bytes) int =
  t == tH264 ? h264_kind(h[12:]) : (t == tHevc ? hevc_kind(h[12:]) : 0)
// header and total length of the first unit of q
def unit_hdr(k int, q bytes) int = 
  k == 0 ? 0 : (let n = (k == 48 ? 2 : h264_unithdr(k)) in len(q) < n ? len(q) : n)
def unit_len(k int, q bytes) int =
  k == 0 ? len(q) : (let n = (k == 48 ? 2 : h264_unithdr(k)) in len(q) < n ? len(q) : imin(len(q), n + be16(q, 0)))

// what every payload format provides
interface rtspclient.IRtpParseInterface.SplitHeader(self, src) (done, header, payload) {
  requires len(src) >= 12
  modifies src[*]
  ensures len(header) >= 12
  ensures header === src[0:len(header)]
  ensures payload === src[len(header):]
  ensures[C03] h264data: dyn(self) == tH264 ==> bytes(payload) == split_data(tH264, old(src))
  ensures[C03] h264done: dyn(self) == tH264 ==> (done <==> split_done(tH264, old(src)))
  ensures[C03] h264kind: dyn(self) == tH264 && len(payload) > 0 ==> head_kind(tH264, bytes(header)) == split_kind(tH264, old(src))
  ensures[C04] hevcdata: dyn(self) == tHevc ==> bytes(payload) == split_data(tHevc, old(src))
  ensures[C04] hevcdone: dyn(self) == tHevc ==> (done <==> split_done(tHevc, old(src)))
  ensures[C04] hevckind: dyn(self) == tHevc && len(payload) > 0 ==> head_kind(tHevc, bytes(header)) == split_kind(tHevc, old(src))
  ensures[C06] data: bytes(payload) == split_data(dyn(self), old(src))
  ensures[C06] mark: done <==> split_done(dyn(self), old(src))
  ensures[C06] kind: len(payload) > 0 ==> head_kind(dyn(self), bytes(header)) == split_kind(dyn(self), old(src))
}
interface rtspclient.IRtpParseInterface.ParsingRtp(self, header, payload) (h, n) {
  requires len(payload) >= 1
  requires len(header) >= 12
  ensures 0 <= h && h <= len(payload) && h <= n && n >= 1
  ensures[C03] h264: dyn(self) == tH264 ==> (let k = head_kind(tH264, bytes(header)) in h == unit_hdr(k, bytes(payload)) && imin(n, len(payload)) == unit_len(k, bytes(payload)))
  ensures[C04] hevc: dyn(self) == tHevc ==> (let k = head_kind(tHevc, bytes(header)) in h == unit_hdr(k, bytes(payload)) && imin(n, len(payload)) == unit_len(k, bytes(payload)))
  ensures[C05,C06] unit: let k = head_kind(dyn(self), bytes(header)) in h == unit_hdr(k, bytes(payload)) && imin(n, len(payload)) == unit_len(k, bytes(payload))
}

typeinv rtspclient.RtpParser(p):
  len(p.payloadBuf) == maxheld && 0 <= p.payloadLen && p.payloadLen <= maxheld &&
  p.rtpSourceHandler != nil &&
  (dyn(p.rtpSourceHandler) == tH264 || dyn(p.rtpSourceHandler) == tHevc || dyn(p.rtpSourceHandler) == tMark || dyn(p.rtpSourceHandler) == tSimple)

spec codec_type(c bytes) int =
  c == "H264" ? tH264 : (c == "H265" || c == "HEVC" ? tHevc : (c == "bbw" ? tMark : tSimple))

func rtspclient.newRtpParser(codec) (p) {
  ensures p != nil
  ensures[C05] p.payloadLen == 0
  ensures[C05,C10] fresh(p)
  ensures[C06,C10] dyn(p.rtpSourceHandler) == codec_type(codec)
  ensures[C06] p.payloadLen == 0
}

func (*rtspclient.RtpParser).splitRtpPacket(p, src) (header, payload) {
  requires p != nil
  requires len(src) >= 12
  modifies src[*], p.isMarkFrame
  ensures len(header) >= 12
  ensures header === src[0:len(header)]
  ensures payload === src[len(header):]
  ensures[C06] data: bytes(payload) == split_data(dyn(p.rtpSourceHandler), old(src))
  ensures[C06] mark: p.isMarkFrame <==> split_done(dyn(p.rtpSourceHandler), old(src))
  ensures[C06] kind: len(payload) > 0 ==> head_kind(dyn(p.rtpSourceHandler), bytes(header)) == split_kind(dyn(p.rtpSourceHandler), old(src))
}

spec held(p rtspclient.RtpParser) bytes = p.payloadBuf[:p.payloadLen]
spec over(h bytes, u bytes) bool = len(h) + len(u) > maxheld
def emits(mark bool, h bytes, u bytes) bool = over(h, u) || mark
def emitted(mark bool, h bytes, u bytes) bytes = over(h, u) ? h : h + u
def keeps(mark bool, h bytes, u bytes) bytes = over(h, u) ? u : (mark ? empty() : h + u)

func (*rtspclient.RtpParser).pushData(p, header, payload) (out, n) {
  requires p != nil
  requires len(header) >= 12
  requires len(payload) >= 1 && len(payload) <= 65535
  modifies p.payloadLen, p.payloadBuf[*]
  ensures 1 <= n && n <= len(payload)
  ensures fresh(out)
  ensures[C05,C06] consumed: n == unit_len(head_kind(dyn(p.rtpSourceHandler), bytes(header)), bytes(payload))
  ensures[C05,C06] delivers: out != nil <==> emits(p.isMarkFrame, old(p.payloadBuf[:p.payloadLen]), bytes(payload)[unit_hdr(head_kind(dyn(p.rtpSourceHandler), bytes(header)), bytes(payload)):n])
  ensures[C05,C06] delivered: out != nil ==> bytes(out) == emitted(p.isMarkFrame, old(p.payloadBuf[:p.payloadLen]), bytes(payload)[unit_hdr(head_kind(dyn(p.rtpSourceHandler), bytes(header)), bytes(payload)):n])
  ensures[C05,C06] held: bytes(p.payloadBuf[:p.payloadLen]) == keeps(p.isMarkFrame, old(p.payloadBuf[:p.payloadLen]), bytes(payload)[unit_hdr(head_kind(dyn(p.rtpSourceHandler), bytes(header)), bytes(payload)):n])
}

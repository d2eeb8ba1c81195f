package rtspclient

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

// ---------------------------------------------------------------- C19

var staticPayloads = map[int]struct {
	codec     string
	clock, ch int
}{
	0: {"PCMU", 8000, 1}, 3: {"GSM", 8000, 1}, 4: {"G723", 8000, 1}, 5: {"DVI4", 8000, 1}, 6: {"DVI4", 16000, 1}, 7: {"LPC", 8000, 1},
	8: {"PCMA", 8000, 1}, 9: {"G722", 8000, 1}, 10: {"L16", 44100, 2}, 11: {"L16", 44100, 1}, 12: {"QCELP", 8000, 1}, 13: {"CN", 8000, 1},
	14: {"MPA", 90000, -1}, 15: {"G728", 8000, 1}, 16: {"DVI4", 11025, 1}, 17: {"DVI4", 22050, 1}, 18: {"G729", 8000, 1},
	25: {"CelB", 90000, -1}, 26: {"JPEG", 90000, -1}, 28: {"nv", 90000, -1}, 31: {"H261", 90000, -1}, 32: {"MPV", 90000, -1},
	33: {"MP2T", 90000, -1}, 34: {"H263", 90000, -1},
}

func TestVerifC19(t *testing.T) {
	search(t, func(r *rand.Rand, n int) string {
		pick := func(v ...string) string { return v[r.Intn(len(v))] }
		eol := pick("\r\n", "\n")
		text := "v=0" + eol + "o=- 1 1 IN IP4 127.0.0.1" + eol + "s=x" + eol
		sess := func() {
			for _, a := range []string{"a=control:*", "a=fmtp:96 session=1", "a=rtpmap:96 NO/1", "a=framerate:99", "a=x-dimensions:1,2", "c=IN IP4 10.0.0.1", "b=AS:5"} {
				if r.Intn(4) == 0 {
					text += a + eol
				}
			}
		}
		text += "t=0 0" + eol
		sess()
		var want []MediaSubsession
		nm := r.Intn(5)
		for i := 0; i < nm; i++ {
			var m MediaSubsession
			m.MediumName = pick("video", "audio", "application", "text")
			pts := []int{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 25, 26, 28, 31, 32, 33, 34, 1, 2, 19, 35, 72, 127}
			m.PayloadFormat = pts[r.Intn(len(pts))]
			if r.Intn(2) == 0 {
				m.PayloadFormat = 96 + r.Intn(32)
			}
			fm := strconv.Itoa(m.PayloadFormat)
			for k := r.Intn(3); k > 0; k-- {
				fm += " " + strconv.Itoa(r.Intn(128))
			}
			text += fmt.Sprintf("m=%s %d%s RTP/AVP %s%s", m.MediumName, r.Intn(3)*1000, pick("", "/2"), fm, eol)
			var attrs []string
			st, static := staticPayloads[m.PayloadFormat]
			if static {
				m.CodecName, m.RtpTimestampFrequency, m.Channels = st.codec, st.clock, st.ch
			}
			if r.Intn(5) > 0 {
				codec := pick("H264", "H265", "mpeg4-generic", "X-Y", "L16", "a")
				clock, ch := -1, -1
				v := fmt.Sprintf("%d %s", m.PayloadFormat, codec)
				if r.Intn(6) > 0 {
					clock = []int{90000, 8000, 48000, 1, 0, 2147483648}[r.Intn(6)]
					v += fmt.Sprint("/", clock)
					if r.Intn(2) == 0 {
						ch = r.Intn(9)
						v += fmt.Sprint("/", ch)
					}
				}
				attrs = append(attrs, "rtpmap:"+v)
				if r.Intn(6) == 0 {
					attrs = append(attrs, "rtpmap:98 second/1/1")
				}
				if !static {
					m.CodecName, m.RtpTimestampFrequency, m.Channels = codec, clock, ch
				}
			}
			if r.Intn(4) > 0 {
				m.TrackURL = pick("track1", "rtsp://h:1/a?b=c:d", "*", "trackID=0", "/x y")
				attrs = append(attrs, "control:"+m.TrackURL)
				if r.Intn(6) == 0 {
					attrs = append(attrs, "control:second")
				}
			}
			if r.Intn(3) == 0 {
				m.VideoWidth, m.VideoHeight = r.Intn(5000), r.Intn(5000)
				attrs = append(attrs, fmt.Sprintf("x-dimensions:%d%s%d", m.VideoWidth, pick(",", ", "), m.VideoHeight))
			}
			fr := r.Intn(4)
			if fr&1 != 0 {
				m.VideoFramerate = 1 + r.Intn(100)
				attrs = append(attrs, fmt.Sprintf("framerate:%d", m.VideoFramerate))
			}
			if fr&2 != 0 {
				x := 1 + r.Intn(100)
				if fr&1 == 0 {
					m.VideoFramerate = x
				}
				attrs = append(attrs, fmt.Sprintf("x-framerate:%d", x))
			}
			if r.Intn(3) > 0 {
				m.Fmtp = map[string]string{}
				v := fm[:len(strconv.Itoa(m.PayloadFormat))]
				m.Fmtp[v] = ""
				sep := " "
				for k := r.Intn(5); k >= 0; k-- {
					name := pick("packetization-mode", "sprop", "a", "b", "config", "A")
					switch r.Intn(4) {
					case 0:
						m.Fmtp[name] = ""
						v += sep + name
						if r.Intn(2) == 0 {
							v += "="
						}
					default:
						val := pick("1", "Z0IAH5WoFAFuQA==,aM48gA==", "=", "x/y:z", "a=b=c", "0")
						m.Fmtp[name] = val
						v += sep + name + "=" + val
					}
					sep = pick(";", "; ", " ", ";;", " ;", "  ")
				}
				attrs = append(attrs, "fmtp:"+v+pick("", ";", ""))
			}
			attrs = append(attrs, "recvonly")
			r.Shuffle(len(attrs), func(a, b int) {
				// the first of several values of a name counts
				if strings.SplitN(attrs[a], ":", 2)[0] != strings.SplitN(attrs[b], ":", 2)[0] && !strings.Contains(attrs[a], "second") && !strings.Contains(attrs[b], "second") {
					attrs[a], attrs[b] = attrs[b], attrs[a]
				}
			})
			first := map[string]int{}
			var ordered, late []string
			for _, a := range attrs {
				if strings.Contains(a, "second") {
					late = append(late, a)
					continue
				}
				first[strings.SplitN(a, ":", 2)[0]]++
				ordered = append(ordered, a)
			}
			for _, a := range append(ordered, late...) {
				text += "a=" + a + eol
			}
			want = append(want, m)
		}
		if r.Intn(8) == 0 {
			// a description that does not decode
			bad := pick("x=", "no separator", "?=what", "c=IN IP4 300.1.1.1/x", "c=IN", "b=AS", "b=AS:x", "m=video x RTP/AVP 96", "t=x 0", "=x")
			if r.Intn(2) == 0 {
				text += bad + eol
			} else {
				text = bad + eol + text
			}
			current("description %q", text)
			if got := parsingSDP(text); got != nil {
				return fmt.Sprintf("description %q does not decode but yields %+v", text, *got)
			}
			return ""
		}
		current("description %q", text)
		got := parsingSDP(text)
		if nm == 0 {
			if got != nil {
				return fmt.Sprintf("description %q without a media yields %+v", text, *got)
			}
			return ""
		}
		if got == nil {
			return fmt.Sprintf("description %q yields nothing", text)
		}
		if len(got.Medias) != len(want) {
			return fmt.Sprintf("description %q yields %d medias, expected %d", text, len(got.Medias), len(want))
		}
		for i := range want {
			a, b := got.Medias[i], want[i]
			if len(a.Fmtp) == 0 && len(b.Fmtp) == 0 {
				a.Fmtp, b.Fmtp = nil, nil
			}
			if !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("description %q: media %d is %+v, expected %+v", text, i, a, b)
			}
		}
		return ""
	})
}

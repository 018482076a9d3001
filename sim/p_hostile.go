package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C09", Title: "No bytes from a camera crash or wedge a session", Quick: 90000, Thorough: 4000000, Run: runC09,
		Rule: "A run counts as non-trivial if the client read bytes that are not proper RTSP or SDP.", Real: realRTSP, Stub: stubRTSP})
}

var nastyNumbers = []string{"", "0", "-1", "1", "abc", "0x10", "+5", " 7", "65535", "65536", "100000", "131068", "131072", "131073", "999999999",
	"2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "1e3", "5, 5", "٣"}

var nastyTransports = []string{"", ";", ";;;;", "RTP", "RTP/AVP", "RTP/AVP/", "RTP/AVP/UDP;unicast", "RTP/AVP;interleaved", "RTP/AVP/TCP;interleaved=",
	"RTP/AVP/TCP;interleaved=-", "RTP/AVP/TCP;interleaved=0", "RTP/AVP/TCP;interleaved=0-", "RTP/AVP/TCP;interleaved=-1--2", "RTP/AVP/TCP;interleaved=999-1000",
	"RTP/AVP/TCP;interleaved=99999999999999999999-0", "RTP/AVP;client_port", "RTP/AVP;client_port=", "RTP/AVP;client_port=x-y", "RTP/AVP;client_port=0-0",
	"RTP/AVP;unicast;client_port=70000-70001;server_port=1-2", "RTP/AVP;multicast", "RTP/AVP;multicast;port=0-0", "RTP/AVP;multicast;port=-5--4", "RTP/AVP;multicast;port=5000-5001;ttl=",
	"RTP/AVP;multicast;destination;source", "ttl=999999999999999999999999", "layers=", "mode", "mode=", "ssrc", "ssrc==", "a/b/c/d/e/f", "a/b/", "//tcp", "RTP/AVP/TCP;unicast;append;append=1"}

var nastyChallenges = []string{"", "Digest", "Digest ", "Basic", "Basic ", "Bearer x", "Digest realm", "Digest realm=", "Digest =", "Digest ==", "Digest ,", "Digest ,,,,,", "Digest \"", "Digest realm=\"",
	"Digest realm=\"a\", nonce=\"", "Digest realm=\"a\\\", nonce=\"b\"", "Digest nonce=\"n\", algorithm=SHA-256", "Digest nonce=\"n\", algorithm=", "Digest nonce=\"n\", qop=\"\"", "Digest nonce=\"n\", qop=\",\"",
	"Digest nonce=\"n\", qop=", "Digest qop", "digest realm=\"x\"", "Basic realm", "Basic realm=\"", "Digest realm=\"\r\", nonce=\"\x00\"", "Negotiate", "Digest nonce=\"\\", "Digest \\", "Digest a=b,c", "Digest realm=a b c, nonce=d e"}

var nastyStatus = []string{"", " ", "RTSP/1.0", "RTSP/1.0 ", "RTSP/1.0  200 OK", "RTSP/1.0 20", "RTSP/1.0 2000 OK", "RTSP/1.0 abc OK", "RTSP/1.0 -20 OK", "RTSP/1.0 +20 OK", "RTSP/2.0 200 OK", "HTTP/1.1 200 OK", "rtsp/1.0 200 ok",
	"RTSP/1.0\t200\tOK", "OPTIONS rtsp://x RTSP/1.0", "RTSP/1.0 200", "RTSP/1.0 000 x", "RTSP/1.0 100 Continue", "RTSP/1.0 302 Moved", "RTSP/1.0 999 x", "\x00\x00\x00", "RTSP/1.0 200 \xff\xfe", "$", " $", "Content-Length: 5", "Content-Length: 2147483647"}

var nastySprops = []string{"", ",", ",,,,", "=", "====", "Z", "Zw", "Zw==", "aA==", "Z0I=", "Z0IA", "Z0IAKQ==", "aM4=", "aP8=", "aAA=", "ZwAAAAAAAAAA", "aAAAAAAAAAAA", "Z////////w==", "aP//////////", "!!!!", "Z0IAKeKQFAe2AtwEBAaQeJEV", "Z0IAKeKQFAe2AtwEBAaQeJEV,aM48gA==,", "AAAA", "gICA", "Z2QAKKzoBQBbkA=="}

var nastySDP = []string{"v=0", "v", "=", "m", "m=", "m= ", "m=video", "m=video ", "m=video 0", "m=video 0 RTP/AVP", "m=video 0 RTP/AVP 96", "m=video -1 RTP/AVP x", "m=video 99999999999999999999 RTP/AVP 96", "m=video 0/2 RTP/AVP 96 97 98",
	"m=audio 0 RTP/AVP 97", "m=application 0 RTP/AVP 107", "a", "a=", "a=:", "a=control", "a=control:", "a=control: ", "a=control:*", "a=control:trackID=0", "a=control:rtsp://", "a=control:rtsp://other.test:99999/x", "a=control:\x01\x02", "a=control:a b c\td",
	"a=rtpmap", "a=rtpmap:", "a=rtpmap:96", "a=rtpmap:96 ", "a=rtpmap: H264", "a=rtpmap:96 H264/", "a=rtpmap:96 H264/x/y/z", "a=rtpmap:96 H264/90000", "a=rtpmap:96 H265/90000", "a=fmtp", "a=fmtp:", "a=fmtp:96", "a=fmtp:96 ", "a=fmtp:96 ;", "a=fmtp:96 =;=", "a=fmtp:96 sprop-parameter-sets",
	"a=fmtp:96 sprop-parameter-sets=", "a=fmtp:97 sprop-parameter-sets=Z0I=", "a=fmtp:96 packetization-mode=1;profile-level-id=", "a=range:npt=0-", "a=range:", "a=range", "c=IN IP4", "c=", "b=AS:", "b=AS:99999999999999999999", "b", "t=0 0", "o=", "s", "s= ", "\x00", "\xff\xfe\xfd", "a=x-dimensions:", "a=framerate:", "a=framerate:x", "a=recvonly", " m=video 0 RTP/AVP 96", "m=video\t0\tRTP/AVP\t96"}

// badSprop draws parameter sets that are broken, or made of odd bits.
func badSprop(d *simrt.Decider) string {
	one := func() string {
		var b []byte
		switch d.Intn(6) {
		case 4, 5:
			b = impossibleSet(d)
		case 0:
			return simrt.Pick(d, nastySprops...)
		case 1: // a good one with bits changed
			g := simrt.Pick(d, "Z0IAKeKQFAe2AtwEBAaQeJEV", "aM48gA==", "Z2QAKKzoBQBbkA==", "aO48sA==", "Z2QAH6zZQFAFuwEQAAADABAAAAMDwPGDGWA=")
			b, _ = base64.StdEncoding.DecodeString(g)
			for k := 1 + d.Intn(4); k > 0; k-- {
				b[d.Intn(len(b))] ^= 1 << uint(d.Intn(8))
			}
			if d.Chance(1, 3) {
				b = b[:d.Intn(len(b)+1)]
			}
		case 2: // bits of low density: long Exp-Golomb codes
			b = make([]byte, 1+d.Intn(60))
			for k := d.Intn(12); k > 0; k-- {
				b[d.Intn(len(b))] |= 1 << uint(d.Intn(8))
			}
			b[0] = simrt.Pick(d, byte(0x67), 0x68)
		case 3: // high density: many short codes
			b = make([]byte, 1+d.Intn(60))
			for i := range b {
				b[i] = 0xff
			}
			for k := d.Intn(12); k > 0; k-- {
				b[d.Intn(len(b))] &^= 1 << uint(d.Intn(8))
			}
			b[0] = simrt.Pick(d, byte(0x67), 0x68)
		}
		return base64.StdEncoding.EncodeToString(b)
	}
	s := one()
	for k := simrt.Pick(d, 0, 1, 2, 10); k > 0; k-- {
		s += "," + one()
	}
	return s
}

// badParam draws a parameter with any value, or none.
func badParam(d *simrt.Decider, names ...string) string {
	n := simrt.Pick(d, names...)
	switch d.Intn(10) {
	case 0, 1:
		return n
	case 2:
		return n + simrt.Pick(d, "=", "==", "=\"\"", "=\"", "= ", "=;", "=,", "=-", "=/", "=a/b/TCP", "=:")
	case 3:
		return n + "=" + simrt.Pick(d, nastyNumbers...) + "-" + simrt.Pick(d, nastyNumbers...)
	case 4:
		return n + "=" + simrt.Pick(d, nastyNumbers...)
	case 5:
		return n + "=\"" + simrt.Pick(d, nastyNumbers...) + "\""
	case 6:
		return n + "=\"a,b\\\"c\""
	case 7:
		return strings.ToUpper(n) + "=" + simrt.Pick(d, "MD5", "md5-sess", "auth-int", "auth,", "PLAY", "true", "x")
	case 8:
		return " " + n + " = x "
	}
	return simrt.Pick(d, "", "=", "x", "x=1", "\"")
}

// badTransport draws what a Transport header should not hold.
func badTransport(d *simrt.Decider) string {
	if d.Chance(1, 3) {
		return simrt.Pick(d, nastyTransports...)
	}
	s := simrt.Pick(d, "RTP/AVP", "RTP/AVP/UDP", "RTP/AVP/TCP", "RTP/AVP;unicast", "RTP/AVP/TCP;unicast;interleaved=0-1", "")
	for k := d.Range(1, 4); k > 0; k-- {
		s += ";" + badParam(d, "unicast", "multicast", "destination", "source", "interleaved", "append", "layers", "ttl", "port", "client_port", "server_port", "ssrc", "mode")
	}
	return s
}

// badChallenge draws what a challenge should not be like.
func badChallenge(d *simrt.Decider) string {
	if d.Chance(1, 3) {
		return simrt.Pick(d, nastyChallenges...)
	}
	s := simrt.Pick(d, "Digest ", "Digest ", "Basic ", "digest  ", "", "Digest realm=\"cam\", nonce=\"n\", ")
	for k := d.Range(1, 5); k > 0; k-- {
		s += badParam(d, "realm", "nonce", "opaque", "domain", "stale", "algorithm", "qop", "charset")
		if k > 1 {
			s += simrt.Pick(d, ", ", ",", " ", ";")
		}
	}
	return s
}

// badLine draws a line of a session description that should not be there.
func badLine(d *simrt.Decider) string {
	switch d.Intn(4) {
	case 0: // less of a line than there should be, or more
		f := strings.Split(simrt.Pick(d, "m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/90000", "a=fmtp:96 packetization-mode=1; sprop-parameter-sets=Z0IAKeKQFAe2AtwEBAaQeJEV,aM48gA==", "a=control:trackID=0"), " ")
		f = f[:d.Range(1, len(f))]
		l := strings.Join(f, simrt.Pick(d, " ", " ", "  ", "\t"))
		if d.Chance(1, 3) {
			l = l[:d.Range(1, len(l))]
		}
		return l + simrt.Pick(d, "", "", " ", ":", "/", ";", "=", " "+simrt.Pick(d, nastyNumbers...))
	case 1: // any attribute with any value
		return "a=" + simrt.Pick(d, "control", "rtpmap", "fmtp", "framerate", "range", "x") + simrt.Pick(d, ":", ":", "", " ", "=", ": ") +
			simrt.Pick(d, "", "96", "96 ", "97 ", "x ") + badParam(d, "sprop-parameter-sets", "config", "sizelength", "indexlength", "H264/90000", "MPEG4-GENERIC/16000/1", "trackID") +
			simrt.Pick(d, "", ";", "/", ",", ":") + badParam(d, "sprop-parameter-sets", "config", "sizelength", "mode")
	}
	return simrt.Pick(d, nastySDP...)
}

// badSDP draws a session description that is broken one way or another.
func badSDP(d *simrt.Decider, cam *Camera) string {
	nl := simrt.Pick(d, "\r\n", "\n", "\r", "\n\n", "\r\n\r\n")
	switch d.Intn(5) {
	case 0: // only parameter sets are bad
		return strings.Join([]string{"v=0", "m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/90000", "a=fmtp:96 packetization-mode=1;sprop-parameter-sets=" + badSprop(d), "a=control:" + cam.C.Medias[0].Control, ""}, "\r\n")
	case 1: // random lines
		var l []string
		for k := d.Intn(20); k >= 0; k-- {
			l = append(l, badLine(d))
		}
		return strings.Join(l, nl)
	case 2: // a good one with a line replaced
		l := strings.Split(cam.SDP(), "\n")
		l[d.Intn(len(l))] = badLine(d)
		return strings.Join(l, "\n")
	case 3: // very many streams
		l := "v=0\r\n"
		for k := simrt.Pick(d, 5, 40, 140, 400); k > 0; k-- {
			l += "m=video 0 RTP/AVP 96\r\na=control:trackID=0\r\n"
		}
		return l
	}
	return string(flipBytes(d, []byte(cam.SDP())))
}

// flipBytes damages a message at the byte level.
func flipBytes(d *simrt.Decider, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + d.Intn(3); k > 0 && len(b) > 0; k-- {
		at := d.Intn(len(b))
		switch d.Intn(7) {
		case 0:
			b[at] ^= 1 << uint(d.Intn(8))
		case 1:
			b[at] = simrt.Pick(d, byte(0), '\n', '\r', ' ', ':', ';', ',', '=', '"', '$', 0xff, '-', '/', '0')
		case 2:
			ins := make([]byte, d.Range(1, 40))
			NewF(d).Fill(ins)
			b = append(b[:at], append(ins, b[at:]...)...)
		case 3:
			end := at + d.Range(1, 60)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at], b[end:]...)
		case 4:
			b = b[:at]
		case 5:
			end := at + d.Range(1, 200)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:end], append(append([]byte(nil), b[at:end]...), b[end:]...)...)
		case 6:
			c := simrt.Pick(d, "\r\n", "\n", "\r\n\r\n", "\x00", "$", ": ", "\"", ",", " ")
			b = append(b[:at], append([]byte(c), b[at:]...)...)
		}
	}
	return b
}

// setHeader replaces, adds or removes a header of a rendered answer.
func setHeader(d *simrt.Decider, b []byte, key, val string) []byte {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return b
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	done := false
	for j := 1; j < len(lines); j++ {
		k := lines[j]
		if c := strings.IndexByte(k, ':'); c >= 0 {
			k = k[:c]
		}
		if strings.EqualFold(k, key) {
			lines[j] = key + ": " + val
			done = true
		}
	}
	if !done || d.Chance(1, 6) {
		lines = append(lines, key+": "+val)
	}
	return append([]byte(strings.Join(lines, "\r\n")+"\r\n\r\n"), b[i+4:]...)
}

func setBody(d *simrt.Decider, b []byte, body string) []byte {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return b
	}
	b = append(append([]byte(nil), b[:i+4]...), body...)
	return setHeader(d, b, "Content-Length", strconv.Itoa(len(body)))
}

// badAnswer turns a proper answer into one that is not.
func badAnswer(d *simrt.Decider, cam *Camera, b []byte, a *Ans) []byte {
	switch d.Weighted(5, 4, 2, 4, 2, 1) {
	case 0:
		return flipBytes(d, b)
	case 1: // a header of the verb's own
		switch a.Verb {
		case "DESCRIBE":
			return setBody(d, b, badSDP(d, cam))
		case "SETUP":
			return setHeader(d, b, "Transport", badTransport(d))
		case "OPTIONS":
			return setHeader(d, b, "Public", simrt.Pick(d, "", ",", ", , ,", strings.Repeat("A, ", 3000), "\x00"))
		}
		return setHeader(d, b, "Session", simrt.Pick(d, "", ";", ";;;", "x;timeout", strings.Repeat("s", 50000), "a b", "\x01\x02", "\xff", "a\rb"))
	case 2: // status line
		i := bytes.Index(b, []byte("\r\n"))
		return append([]byte(simrt.Pick(d, nastyStatus...)), b[i:]...)
	case 3: // numbers
		return setHeader(d, b, simrt.Pick(d, "Content-Length", "Content-Length", "CSeq", "content-length", "Content-Length "), simrt.Pick(d, nastyNumbers...))
	case 4: // a challenge out of the blue
		i := bytes.Index(b, []byte("\r\n"))
		b = append([]byte("RTSP/1.0 401 Unauthorized"), b[i:]...)
		return setHeader(d, b, "WWW-Authenticate", badChallenge(d))
	}
	// Header lines that are none.
	i := bytes.Index(b, []byte("\r\n"))
	l := simrt.Pick(d, "\r\nx", "\r\n:", "\r\n: x", "\r\n:::", "\r\n \r\n x: y", "\r\nx :y", "\r\n\x00: \x00", "\r\n"+strings.Repeat("h", 70000)+": v", "\r\n"+strings.Repeat("a: b\r\n", 4000)+"a: b", "\r\nX: "+strings.Repeat("v", 140000))
	return append(append(append([]byte(nil), b[:i]...), l...), b[i:]...)
}

// garbage draws bytes a camera sends unasked.
func garbage(d *simrt.Decider) []byte {
	n := simrt.Pick(d, 1, 4, 50, 2047, 70000, 131071, 131072, 131073, 300000)
	switch d.Intn(9) {
	case 0:
		return bytes.Repeat([]byte("A"), n)
	case 1:
		return bytes.Repeat([]byte("\n"), n)
	case 2:
		l := simrt.Pick(d, "a: b\r\n", "a:\n", "Content-Length: 5\r\n")
		return bytes.Repeat([]byte(l), n/len(l)+1)
	case 3:
		return make([]byte, n)
	case 4:
		b := make([]byte, n)
		NewF(d).Fill(b)
		return b
	case 5: // frames on odd channels, cut short
		b := []byte{'$', byte(d.Intn(256)), byte(d.Intn(256)), byte(d.Intn(256))}
		return append(b, make([]byte, d.Intn(300))...)
	case 6:
		return []byte(simrt.Pick(d, nastyStatus...) + "\r\n\r\n")
	case 7: // a request of the camera's own
		return []byte(simrt.Pick(d, "OPTIONS * RTSP/1.0\r\nCSeq: 1\r\n\r\n", "REDIRECT rtsp://camera.test/ RTSP/1.0\r\nCSeq: 2\r\nLocation: rtsp://x/\r\n\r\n", "ANNOUNCE rtsp://camera.test/x RTSP/1.0\r\nCSeq: 3\r\nContent-Length: 4\r\n\r\nv=0\n"))
	}
	// Answers to requests that may be outstanding, or will be.
	s := ""
	for k := d.Range(1, 12); k > 0; k-- {
		s += fmt.Sprintf("RTSP/1.0 %s\r\nCSeq: %d\r\n%s\r\n", simrt.Pick(d, "200 OK", "200 OK", "401 No", "404 No"), d.Intn(14),
			simrt.Pick(d, "", "Session: evil\r\n", "WWW-Authenticate: "+badChallenge(d)+"\r\n", "Transport: "+badTransport(d)+"\r\n"))
	}
	return []byte(s)
}

func runC09(r *Run) {
	if r.D.Chance(1, 2000) {
		endlessUnit(r)
		return
	}
	cfg := r.Sched(100*ms, false)
	cfg.Limit = 2000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{}
	info := ""
	if d.Chance(2, 5) {
		drawAuth(d, &cc.Auth, "u", "p")
		cc.Auth.RotateUses = simrt.Pick(d, 0, 3)
		info = "u:p"
	} else if d.Chance(1, 3) {
		info = "u:p"
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 4) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
		if d.Chance(1, 5) {
			proto = rtsp.ProtoMulticast
		}
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 200 * ms, maxVideo: 3, audio: true, shortIO: true, ansDelay: true})
	if cam.C.AnsDelay > 200*ms {
		cam.C.AnsDelay = 200 * ms
	}
	badSets := d.Chance(1, 4)
	if badSets {
		for _, m := range cam.C.Medias {
			m.Sprop = badSprop(d)
		}
		w.Count("fault.bad_parameter_sets")
	}
	// Half of the time the first bad bytes come at a particular answer.
	badAt := -1
	if d.Chance(3, 4) {
		badAt = d.Intn(10)
	}
	again := simrt.Pick(d, 0, 0, 10, 50)
	badPkt := simrt.Pick(d, 0, 0, 0, 10)
	raw := int64(-1)
	if badAt < 0 || d.Chance(1, 5) {
		raw = int64(d.Intn(40)) * 250 * ms
	}
	ends := d.Intn(3) // how the camera ends the connection: FIN, RST, never before long
	r.Desc = fmt.Sprintf("bad answer %d again %d%% bad packets %d%% raw at %d ms auth %q proto %d", badAt, again, badPkt, raw/ms, cc.Auth.Mode, proto)
	end := false
	nAns := 0
	mangle := func(b []byte, a *Ans) ([]byte, bool) {
		if end {
			return nil, false
		}
		if a == nil {
			if badPkt > 0 && d.Chance(badPkt, 100) {
				w.Count("fault.bad_packet_frame")
				return flipBytes(d, b), true
			}
			return nil, false
		}
		nAns++
		if nAns-1 == badAt || (badAt >= 0 && nAns-1 > badAt && d.Chance(again, 100)) {
			w.Count("fault.bad_answer_" + strings.ToLower(a.Verb))
			return badAnswer(d, cam, b, a), true
		}
		return nil, false
	}
	var conn *CamConn
	cam.OnReq = func(c *CamConn, q *Req) {
		if conn == nil {
			conn = c
			c.Mangle = mangle
			if badSets {
				c.BadSent, c.GoodPkt = true, 0
			}
			if raw >= 0 {
				w.At(raw, func() {
					if !c.Closed {
						w.Count("fault.garbage")
						b := garbage(d)
						if len(b) <= 50000 || !d.Chance(1, 4) {
							c.Bad(b)
							return
						}
						// A long message trickles in.
						w.Count("fault.trickle")
						n := simrt.Pick(d, 100, 50, 16)
						var step func()
						step = func() {
							k := min(n, len(b))
							c.Bad(b[:k])
							if b = b[k:]; len(b) > 0 && !c.Closed && !c.C.ClientClosed() {
								w.At(1*ms, step)
							}
						}
						step()
					}
				})
			}
			if d.Chance(2, 3) {
				budget := 60000
				pump(r, c, []byte{0, 1, 2}, d.Range(1, 12), &budget, 500*ms, func() bool { return end })
			}
		}
	}
	a0 := allocBytes()
	app := NewApp(w, "app")
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			return
		}
		app.WaitStage(rtsp.StageReady, 1, 10*sec)
		drawCommands(d, app, d.Range(1, 6), 400*ms, 30, "PLAY", "PAUSE", "OPTIONS", "DESCRIBE", "PLAY")
		if d.Chance(1, 4) {
			app.Cmd("TEARDOWN")
		}
	})
	w.RunFor(40 * sec)
	if d.Chance(1, 4) {
		w.RunFor(200 * sec)
	}
	end = true
	c := conn
	if w.Stopped() || c == nil {
		return
	}
	sent := c.sent
	if ends == 1 {
		c.Reset()
	} else {
		c.Close()
	}
	w.RunFor(90 * sec)
	if w.Stopped() {
		return
	}
	if alloc := int64(allocBytes() - a0); alloc > 400<<20+500*sent {
		r.Violate("memory", "%d MB were allocated although the camera sent only %d bytes", alloc>>20, sent)
		return
	} else if alloc > w.Counts["max.alloc"] {
		w.Counts["max.alloc"] = alloc
	}
	if n := int64(w.Work()); n > 30_000_000+500*sent {
		r.Violate("slow", "%d statements were executed although the camera sent only %d bytes", n, sent)
		return
	} else {
		w.Max("max.statements", n)
		w.Max("max.statements_per_byte", n/(sent+10000))
	}
	r.NonTriv = c.BadSent && c.Sock.ReadBytes > 0
	if n, names := w.LiveLib(); n > 0 {
		r.Violate("wedged", "%d background tasks (%s) are still there 90 s after the camera ended the connection", n, names)
		return
	}
	good := len(c.Pkts)
	if c.BadSent {
		good = c.GoodPkt
	}
	if a := app.Altered(); a != "" {
		r.Violate("packet-altered", "%s", a)
		return
	}
	// What was sent before the first bad byte has to be there.
	if !app.Opened {
		return
	}
	for i := 0; i < good && i < len(app.Got); i++ {
		if g, p := app.Got[i], c.Pkts[i]; g.Ch != p.Ch || g.Sum != hashBytes(p.Data) {
			r.Violate("packet-differs", "delivery %d is channel %d with %d bytes; sent before any bad byte was channel %d with %d bytes", i, g.Ch, len(g.B), p.Ch, len(p.Data))
			return
		}
	}
	if ends != 1 && app.HasStage(rtsp.StageDone) == 0 && len(app.Got) < good {
		r.Violate("packet-missing", "%d packets were delivered of %d that came before any bad byte", len(app.Got), good)
	}
}

// endlessUnit pushes the fragments of one unit that goes on and on.
func endlessUnit(r *Run) {
	cfg := r.Sched(20*ms, false)
	w := r.World(cfg)
	d := r.D
	size := d.Range(0, 30)
	n := simrt.Pick(d, 20000, 30000)
	head := simrt.Pick(d, []byte{0x7c, 0x05}, []byte{0x7d, 0x05, 0, 0}, []byte{0, 0, 1, 0x7c, 0x05})
	r.Desc = fmt.Sprintf("%d fragments of %d bytes of one unit", n, size)
	sink := h264.NewNALSink()
	a0 := allocBytes()
	done := false
	w.Spawn("app", false, func() {
		defer func() { done = true }()
		pl := append(append([]byte(nil), head...), make([]byte, size)...)
		for i := range size {
			pl[len(head)+i] = 0x55
		}
		sink.Push([]byte{0x7c, 0x85, 1}, 7)
		for i := 0; i < n; i++ {
			sink.Push(pl, 7)
		}
		w.Count("fault.endless_unit")
	})
	w.RunFor(10 * sec)
	if w.Stopped() || !done {
		return
	}
	r.NonTriv = true
	if alloc := int64(allocBytes() - a0); alloc > 2<<30 {
		r.Violate("memory", "%d MB were allocated for %d fragments of %d bytes", alloc>>20, n, size)
	}
}

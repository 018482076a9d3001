package main

import (
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

// camOpts says what a scenario may draw for a camera.
type camOpts struct {
	maxDelay  int64 // largest link delay
	stalls    bool  // multi-second stalls in the links
	maxVideo  int
	audio     bool
	refuse    bool
	absCtl    bool
	shortIO   bool
	ansDelay  bool
	plainHdr  bool
	manyVideo bool
	port      int // 0: drawn
	anyPath   bool
	prompt    bool // answers are not held up
	fixedIP   bool // the address is as given
}

var sprops = []string{"Z0IAKeKQFAe2AtwEBAaQeJEV,aM48gA==", "Z2QAKKzoBQBbkA==,aO48sA=="}

// drawCamera makes a camera and its links.
func (r *Run) drawCamera(name, host, ip string, cfg CamCfg, o camOpts) *Camera {
	d := r.D
	n := 1
	if o.maxVideo > 1 {
		n = 1 + d.Weighted(5, 3, 2)
		if o.manyVideo && d.Chance(1, 6) {
			n = d.Range(4, 7)
		}
		if n > o.maxVideo {
			n = o.maxVideo
		}
	}
	form := d.Weighted(4, 2, 2, 2)
	for i := 0; i < n; i++ {
		if o.audio && d.Chance(1, 4) {
			cfg.Medias = append(cfg.Medias, &Media{Control: fmt.Sprintf("audio%d", i)})
		}
		m := &Media{Video: true}
		switch form {
		case 0:
			m.Control = fmt.Sprintf("trackID=%d", i)
		case 1:
			m.Control = fmt.Sprintf("streamid=%d", i)
		case 2:
			m.Control = fmt.Sprintf("media/video%d?profile=%d&ch=1", i, i)
			if d.Chance(1, 4) {
				m.Control = fmt.Sprintf("video%d?src=rtsp://10.0.0.9/ch%d", i, i)
			}
		}
		if s := d.Intn(4); s > 2 {
			m.Sprop = drawSprop(d)
		} else if s > 0 {
			m.Sprop = sprops[s-1]
		}
		cfg.Medias = append(cfg.Medias, m)
	}
	if o.audio && d.Chance(1, 4) {
		cfg.Medias = append(cfg.Medias, &Media{Control: "audio"})
	}
	if o.refuse && n > 1 {
		k := d.Intn(n) // this one is accepted
		for i, m := range cfg.Medias {
			if m.Video && i != k && d.Chance(1, 3) {
				m.Refuse = simrt.Pick(d, 461, 404, 453, 500, 403, 459, 301, 302, 551)
			}
		}
		ok := false
		for _, m := range cfg.Medias {
			ok = ok || (m.Video && m.Refuse == 0)
		}
		if !ok {
			for _, m := range cfg.Medias {
				m.Refuse = 0
			}
		}
	}
	if !o.plainHdr {
		cfg.HdrStyle = d.Intn(512)
		if d.Chance(1, 12) {
			cfg.HdrStyle |= 512
		}
		cfg.Fold = d.Chance(1, 6)
		if d.Chance(1, 6) {
			cfg.ContPct = simrt.Pick(d, 10, 50, 100)
		}
		if d.Chance(1, 4) {
			cfg.SDPEnd = "\n"
		}
		if d.Chance(1, 3) {
			cfg.SDPVar = d.Intn(2048) & d.Intn(2048)
		}
		if d.Chance(1, 8) {
			// A long description.
			size := simrt.Pick(d, 3000, 20000, 66000, 100000)
			var l []string
			for n := 0; n < size; n += 200 {
				l = append(l, fmt.Sprintf("a=x-info%d:%s", n, strings.Repeat("i", 180)))
			}
			nl := cfg.SDPEnd
			if nl == "" {
				nl = "\r\n"
			}
			if d.Chance(1, 4) {
				nl = " " // all in one line
			}
			cfg.SDPPrefix = strings.Join(l, nl)
		}
		cfg.ErrBody = cfg.ErrBody || d.Chance(1, 6)
		if a := &cfg.Auth; !o.prompt && a.RotateUses == 0 && (a.RotateTime == 0 || a.RotateTime > 10*sec) && d.Chance(1, 12) {
			cfg.BodyStall = simrt.Pick(d, 500*ms, 2*sec, 4*sec, 6*sec)
		}
		if cfg.Public == "" && d.Chance(1, 4) {
			cfg.Public = simrt.Pick(d, "OPTIONS,DESCRIBE,SETUP,TEARDOWN,PLAY", " ", "DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE", "PLAY", "OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE, GET_PARAMETER, SET_PARAMETER")
		}
		cfg.SessID = simrt.Pick(d, "12345678", "", "A-B_c.d+e$", "0", "99887766554433221100AABBCCDDEEFF")
		cfg.SessParams = simrt.Pick(d, "", ";timeout=60", ";timeout=30;x=y", ";", "; timeout=60", " ;timeout=60")
	}
	if o.ansDelay {
		cfg.AnsDelay = simrt.Pick(d, 0, 100*ms, 1*sec, 5*sec)
	}
	port := 554
	if d.Chance(1, 3) {
		port = 8554
	}
	if o.port != 0 {
		port = o.port
	}
	if !o.fixedIP {
		last := ip[strings.LastIndexByte(ip, '.')+1:]
		switch d.Weighted(7, 1, 1, 1) {
		case 1:
			ip = "fd00::1:" + last
		case 2:
			ip = "fd00::1:" + last
			host = "[" + ip + "]"
		case 3:
			ip = "10.9.1." + last
			if d.Chance(1, 2) {
				host = ip
			}
		}
	}
	if d.Chance(1, 12) {
		// Someone sets the clock, or NTP does.
		for k := d.Range(1, 3); k > 0; k-- {
			r.W.At(int64(d.Intn(60))*sec/2, func() {
				r.W.Count("fault.wall_clock_jump")
				r.W.JumpWall(simrt.Pick(d, int64(-3600), 3600, -2, 2, -86400, 30) * sec)
			})
		}
	}
	cam := NewCamera(r.W, name, host, ip, port, cfg)
	switch d.Weighted(6, 1, 1, 1, 1, 1, 1) {
	case 1:
		cam.Path += "/"
	case 2:
		cam.Path += "?channel=1&subtype=0"
	case 3:
		cam.Path += "/my%20cam%2F1/a+b;c=1"
	case 4:
		if o.anyPath {
			cam.Path = simrt.Pick(d, "", "/", "/1")
		}
	case 5:
		// A space in the query is escaped, a fragment is not for the camera.
		cam.Asked = cam.Path + simrt.Pick(d, "?name=front door&x", "?name=front door#t=0", "#t=0", "?name=the front  door&x=a b")
		if i := strings.IndexByte(cam.Asked, '?'); i >= 0 {
			cam.Path = strings.Split(strings.ReplaceAll(cam.Asked, " ", "%20"), "#")[0]
		}
	}
	if form == 3 {
		for i, m := range cam.C.Medias {
			if m.Video {
				if d.Chance(1, 3) {
					m.Control = fmt.Sprintf("rtsp://%s:%d/elsewhere/%d", cam.Host, cam.Port, i)
				} else {
					m.Control = fmt.Sprintf("%s/trackID=%d", strings.TrimSuffix(cam.Base(), "/"), i)
				}
			}
		}
	}
	cam.L.Up = r.DrawLink(o.maxDelay, o.stalls)
	cam.L.Down = r.DrawLink(o.maxDelay, o.stalls)
	cam.L.DialTime = int64(d.Intn(4)) * o.maxDelay / 6
	if o.shortIO {
		cam.L.ShortRd = simrt.Pick(d, 0, 10, 60)
		cam.L.ShortWr = simrt.Pick(d, 0, 10, 60)
	}
	return cam
}

// chronicle is the list of requests of a connection with repeats marked.
func firstSends(c *CamConn) (out []*Req) {
	seen := map[int]bool{}
	for _, q := range c.Reqs {
		if !seen[q.CSeq] {
			seen[q.CSeq] = true
			out = append(out, q)
		}
	}
	return
}

func verbList(qs []*Req) string {
	var s []string
	for _, q := range qs {
		s = append(s, q.Verb)
	}
	return strings.Join(s, " ")
}

// lastDelivery is when the last byte sent so far reaches the client's host.
func (c *CamConn) lastDelivery() int64 {
	t := c.Sock.DownLast()
	if t < c.w.Now() {
		t = c.w.Now()
	}
	return t
}

// checkHandshake checks the handshake of one session; asks tells whether the
// application has asked questions of its own meanwhile.
func checkHandshake(r *Run, cam *Camera, app *App, proto int, asks bool) {
	if app.OpenC == nil || !app.OpenC.Done {
		r.Violate("open-hangs", "Open has not returned after %s", fmtDur(r.W.Now()))
		return
	}
	if app.OpenC.Err != nil {
		r.Violate("open-fails", "Open: %v", app.OpenC.Err)
		return
	}
	c := cam.Conn()
	if c == nil {
		r.Violate("open-fails", "Open succeeded without a connection")
		return
	}
	if c.Malformed != "" {
		r.Violate("malformed", "%s", c.Malformed)
		return
	}
	qs := firstSends(c)
	want := []string{"OPTIONS", "DESCRIBE"}
	vs := cam.Videos()
	for range vs {
		want = append(want, "SETUP")
	}
	if asks {
		// Questions of the application come on top of those of the library.
		seen := map[string]bool{}
		var rest []*Req
		for _, q := range qs {
			if (q.Verb == "OPTIONS" || q.Verb == "DESCRIBE") && seen[q.Verb] {
				continue
			}
			seen[q.Verb] = true
			rest = append(rest, q)
		}
		qs = rest
	} else if proto == rtsp.ProtoUnicast && len(app.Stages) > 0 {
		// Keep-alives follow.
		for len(qs) > len(want) && qs[len(qs)-1].Verb == "OPTIONS" {
			qs = qs[:len(qs)-1]
		}
	}
	if got := verbList(qs); got != strings.Join(want, " ") {
		r.Violate("sequence", "the camera got %q instead of %q; stages: %s", got, strings.Join(want, " "), app.stageList())
		return
	}
	used := map[int]bool{}
	for i, v := range vs {
		q := qs[2+i]
		if q.URI != cam.ControlURI(v) {
			r.Violate("setup-uri", "SETUP %d is for %s instead of %s", i, q.URI, cam.ControlURI(v))
			return
		}
		t, _ := q.Get("Transport")
		il, _ := transportParam(t, "interleaved")
		if proto == rtsp.ProtoUnicast {
			cp, _ := transportParam(t, "client_port")
			a, b, ok := parsePair(cp)
			if strings.Contains(t, "TCP") || !strings.Contains(t, ";unicast") || !ok || a%2 != 0 || b != a+1 || a < 1024 || b > 65535 || used[a] {
				r.Violate("setup-transport", "SETUP %d asks for %q", i, t)
				return
			}
			used[a] = true
			continue
		}
		if !strings.HasPrefix(t, "RTP/AVP/TCP") || il != fmt.Sprintf("%d-%d", 2*i, 2*i+1) {
			r.Violate("setup-transport", "SETUP %d asks for %q", i, t)
			return
		}
	}
	for i := 0; i < 2; i++ {
		if qs[i].URI != cam.Base() {
			r.Violate("request-uri", "%s is for %s instead of %s", qs[i].Verb, qs[i].URI, cam.Base())
			return
		}
	}
	if s := app.stageList(); s != "Ready" {
		r.Violate("ready", "after the last SETUP was answered the application has been told %q instead of Ready once", s)
	}
}

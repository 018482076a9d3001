package main

import (
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

const realRTSP = "net/rtsp (session, connection, message, feed, transport, digest), net/sdp, net/h264 parameter sets, net/url, bufio, textproto: the repository's code, instrumented"
const stubRTSP = "TCP/UDP sockets, DNS, clock, timers, goroutine scheduling, channels, mutexes, randomness, log output, the camera"

func init() {
	register(&Prop{ID: "C01", Title: "Opening a camera reaches Ready exactly once", Quick: 200000, Thorough: 10000000, Run: runC01,
		Rule: "A run counts as non-trivial if the handshake went through at least OPTIONS and DESCRIBE.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C02", Title: "Interleaved packets arrive exactly as sent", Quick: 50000, Thorough: 3000000, Run: runC02,
		Rule: "A run counts as non-trivial if at least 3 packets were delivered.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C03", Title: "What the camera receives is always whole requests", Quick: 60000, Thorough: 3000000, Run: runC03,
		Rule: "A run counts as non-trivial if at least 5 requests arrived.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C04", Title: "Stage changes follow matching successful answers", Quick: 30000, Thorough: 1500000, Run: runC04,
		Rule: "A run counts as non-trivial if at least 3 commands were answered.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C05", Title: "The camera's session identifier is echoed", Quick: 70000, Thorough: 4000000, Run: runC05,
		Rule: "A run counts as non-trivial if at least 2 requests had to carry an identifier.", Real: realRTSP, Stub: stubRTSP})
}

func runC01(r *Run) {
	cfg := r.Sched(300*ms, false)
	cfg.Limit = 1200 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{}
	if d.Chance(1, 8) {
		cc.DescribeC = simrt.Pick(d, 404, 500, 454, 503, 302, 415)
	}
	cc.ErrBody = d.Chance(1, 4)
	cc.NoSessIn = map[string]bool{}
	if d.Chance(1, 4) {
		cc.OOOPct = 30
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 3 * sec, stalls: true, maxVideo: 7, manyVideo: true,
		audio: true, refuse: true, absCtl: true, shortIO: true, ansDelay: true, anyPath: true})
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 100*ms, 3*sec)
	proto := rtsp.ProtoTCP
	if d.Chance(1, 4) {
		proto, cam.C.UDP = rtsp.ProtoUnicast, true
		app.Used = drawUsed(d, 60)
	}
	// The application may ask on its own while the session is being opened.
	ask := 0
	if d.Chance(1, 6) {
		ask = d.Range(1, 3)
	}
	lastSetup := int64(0)
	cam.OnReq = func(c *CamConn, q *Req) {
		if c.OnAns == nil {
			c.OnAns = func(a *Ans) {
				if a.Verb == "SETUP" {
					lastSetup = c.Sock.DownLast()
				}
			}
		}
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(""), proto) != nil {
			return
		}
		for ; ask > 0; ask-- {
			app.Sleep(int64(d.Intn(8)) * simrt.Pick(d, 0, 10*ms, 500*ms))
			w.Count("work.early_questions")
			app.Cmd(simrt.Pick(d, "OPTIONS", "OPTIONS", "DESCRIBE"))
		}
	})
	asks := ask > 0
	r.Desc = fmt.Sprintf("%d streams, answers delayed up to %s, proto %d, asks %v", len(cam.Videos()), fmtDur(cam.C.AnsDelay), proto, asks)
	// Until everything has been answered and delivered, and then some.
	for {
		w.RunFor(30 * sec)
		c := cam.Conn()
		if w.Stopped() {
			return
		}
		if proto == rtsp.ProtoUnicast && len(app.Stages) > 0 {
			break // keep-alives go on for ever
		}
		if c == nil || (len(c.Reqs) > 0 && len(c.Ans) < len(c.Reqs)) || c.lastDelivery() > w.Now() || (c.Sock.UpLast() > w.Now()) {
			if w.Now() < 1000*sec {
				continue
			}
		}
		break
	}
	w.RunFor(60 * sec)
	if w.Stopped() {
		return
	}
	c := cam.Conn()
	if cc.DescribeC != 0 {
		if c == nil || app.OpenC.Err != nil {
			r.Violate("open-fails", "Open: %v", app.OpenC.Err)
			return
		}
		qs := firstSends(c)
		r.NonTriv = len(qs) >= 2
		for _, q := range qs {
			if q.Verb == "SETUP" {
				r.Violate("setup-after-failure", "SETUP of %s although DESCRIBE was answered with %d", q.URI, cc.DescribeC)
				return
			}
		}
		if len(qs) != 2 && !asks {
			r.Violate("sequence", "the camera got %q", verbList(qs))
			return
		}
		r.Ok(len(app.Stages) == 0, "ready", "stages %q although DESCRIBE was answered with %d", app.stageList(), cc.DescribeC)
		return
	}
	checkHandshake(r, cam, app, proto, asks)
	if w.Fail != nil {
		return
	}
	r.NonTriv = len(c.Ans) >= 3
	last := c.Ans[0]
	for _, a := range c.Ans {
		if a.Verb == "SETUP" {
			last = a
		}
	}
	st := app.Stages[0]
	r.Ok(st.Seq > last.Seq, "ready-early", "Ready was told before the last SETUP was answered")
	// c.lastDelivery is bounded by what we waited for.
	end := lastSetup
	r.Ok(st.T-end <= 20*sec, "ready-late", "Ready was told %s after the last answer had arrived", fmtDur(st.T-end))
	if c.Closed || app.Opened == false {
		return
	}
}

// drawSize draws the size of a packet; boundaries of buffers are frequent.
func drawSize(d *simrt.Decider, left int) int {
	n := 0
	switch d.Weighted(4, 4, 3, 3, 2, 2, 1, 1) {
	case 0:
		n = d.Range(1, 40)
	case 1:
		n = d.Range(100, 1500)
	case 2:
		n = d.Range(2036, 2060)
	case 3:
		n = d.Range(0, 4)
	case 4:
		n = d.Range(4084, 4104)
	case 5:
		n = d.Range(1400, 9000)
	case 6:
		n = 65535 - d.Intn(6)
	case 7:
		n = d.Range(8000, 65535)
	}
	if n > left {
		n = left
	}
	return n
}

// drawPayload draws packet content; some of it looks like protocol text.
func drawPayload(d *simrt.Decider, n int) []byte {
	b := make([]byte, n)
	NewF(d).Fill(b)
	switch d.Intn(5) {
	case 1:
		copy(b, "RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n")
	case 2:
		for i := range b {
			b[i] = '$'
		}
	case 3:
		copy(b, "\r\n\r\n")
	}
	return b
}

// NewF seeds a Filler with one choice.
func NewF(d *simrt.Decider) *simrt.Filler { return simrt.NewFiller(uint64(d.Intn(1 << 30))) }

// pump makes the camera send packets from time to time.
func pump(r *Run, c *CamConn, chans []byte, n int, budget *int, gap int64, until func() bool) {
	d := r.D
	var step func()
	left := n
	step = func() {
		if left <= 0 || c.Closed || until() {
			return
		}
		k := 1 + d.Weighted(6, 2, 1, 1)*2
		for ; k > 0 && left > 0; k-- {
			left--
			sz := drawSize(d, *budget)
			*budget -= sz
			c.SendPkt(chans[d.Intn(len(chans))], drawPayload(d, sz))
			r.W.Count("work.packets")
		}
		r.W.At(int64(d.Intn(8))*gap/7, step)
	}
	r.W.At(int64(d.Intn(4))*gap/3, step)
}

// checkPackets compares what was delivered with what was sent.
// sent[:must] have to be there; the rest may be.
func checkPackets(r *Run, app *App, sent []*Pkt, must int) bool {
	for i := range app.Got {
		g := &app.Got[i]
		if i >= len(sent) {
			r.Violate("packet-invented", "packet %d (channel %d, %d bytes) was delivered although only %d were sent", i, g.Ch, len(g.B), len(sent))
			return false
		}
		p := sent[i]
		if g.Ch != p.Ch || len(g.B) != len(p.Data) || g.Sum != hashBytes(p.Data) {
			r.Violate("packet-differs", "delivery %d is channel %d with %d bytes; sent was channel %d with %d bytes", i, g.Ch, len(g.B), p.Ch, len(p.Data))
			return false
		}
	}
	if len(app.Got) < must {
		r.Violate("packet-missing", "%d packets were delivered of %d that had to be", len(app.Got), must)
		return false
	}
	if a := app.Altered(); a != "" {
		r.Violate("packet-altered", "%s", a)
		return false
	}
	return true
}

func runC02(r *Run) {
	cfg := r.Sched(300*ms, r.D.Chance(1, 4))
	cfg.Limit = 3600 * sec
	lull := drawLull(r.D)
	cfg.Limit += lull
	cfg.LongStall = false
	w := r.World(cfg)
	d := r.D
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", CamCfg{}, camOpts{maxDelay: 1 * sec, stalls: true, maxVideo: 4, shortIO: true, ansDelay: true})
	app := NewApp(w, "app")
	switch d.Weighted(3, 2, 1, 2) {
	case 1:
		app.SlowPct, app.SlowMax = 20, 500*ms
	case 2:
		app.SlowPct, app.SlowMax = 5, 20*sec
	case 3:
		app.StallAt, app.StallFor = d.Range(1, 12), simrt.Pick(d, 5*sec, 40*sec, 100*sec, 700*sec)
	}
	end := d.Weighted(3, 3, 2, 2) // stays up, camera closes, reset, teardown
	if lull > 0 {
		end = d.Intn(2)
	}
	nPkt := d.Range(3, 40)
	if d.Chance(1, 6) {
		nPkt = d.Range(40, 120)
	}
	budget := simrt.Pick(d, 20000, 150000, 400000)
	early := d.Chance(1, 5)
	var chans []byte
	for i := range cam.Videos() {
		chans = append(chans, byte(2*i), byte(2*i+1))
	}
	if d.Chance(1, 4) {
		chans = append(chans, 255, byte(d.Intn(256)))
	}
	r.Desc = fmt.Sprintf("%d packets, ending %d, early %v", nPkt, end, early)
	done := false
	gap := simrt.Pick(d, 0, 20*ms, 500*ms, 5*sec)
	started := false
	start := func(c *CamConn) {
		if !started {
			started = true
			pump(r, c, chans, nPkt, &budget, gap, func() bool { return done })
		}
	}
	cam.OnReq = func(c *CamConn, q *Req) {
		if (early && q.Verb == "SETUP") || q.Verb == "PLAY" {
			start(c)
		}
	}
	tdPkts := -1
	script := func() {
		if app.Open(cam.URL(""), rtsp.ProtoTCP) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
			return
		}
		if app.Cmd("PLAY") != nil {
			return
		}
		n := d.Intn(6)
		for i := 0; i < n; i++ {
			app.Sleep(int64(d.Intn(8)) * 300 * ms)
			if app.Cmd(simrt.Pick(d, "OPTIONS", "PAUSE", "PLAY")) != nil {
				return
			}
		}
		if end == 3 {
			app.Sleep(int64(d.Intn(10)) * sec)
			app.Cmd("TEARDOWN")
		}
	}
	w.Spawn("app", false, script)
	w.RunFor(60*sec + int64(d.Intn(20))*sec)
	c := cam.Conn()
	if w.Stopped() {
		return
	}
	if c == nil || !started {
		// The handshake has not come this far; C01 judges that.
		w.RunFor(600 * sec)
		c = cam.Conn()
	}
	if w.Stopped() || c == nil {
		return
	}
	w.RunFor(int64(d.Intn(30)) * sec)
	if lull > 0 && started {
		// Nothing happens for hours, and then media comes again.
		w.Count("work.lull")
		w.RunFor(lull)
		budget = 20000
		pump(r, c, chans, 20, &budget, gap, func() bool { return done })
		w.RunFor(60 * sec)
		if w.Stopped() {
			return
		}
	}
	done = true
	switch end {
	case 1:
		if d.Chance(1, 2) && !c.Closed {
			w.Count("fault.partial_packet")
			c.raw([]byte{'$', 0, 4, 0, 1, 2, 3}[:d.Range(1, 7)])
		}
		c.Close()
	case 2:
		c.Reset()
	}
	for _, a := range c.Ans {
		if a.Verb == "TEARDOWN" && a.Code == 200 {
			tdPkts = 0
			for _, p := range c.Pkts {
				if p.End <= a.End {
					tdPkts++
				}
			}
			break
		}
	}
	// Time to deliver and consume everything.
	w.RunFor(2400 * sec)
	if w.Stopped() {
		return
	}
	if c.Malformed != "" {
		return
	}
	r.NonTriv = len(app.Got) >= 3
	must := len(c.Pkts)
	if end == 2 {
		must = 0
	}
	if end == 3 {
		// The camera may have answered after this was computed; the answer is final.
		for _, a := range c.Ans {
			if a.Verb == "TEARDOWN" && a.Code == 200 {
				tdPkts = 0
				for _, p := range c.Pkts {
					if p.End <= a.End {
						tdPkts++
					}
				}
				break
			}
		}
		if tdPkts >= 0 {
			must = tdPkts
		}
	}
	if !app.Opened {
		must = 0
	}
	checkPackets(r, app, c.Pkts, must)
}

// drawCommands issues commands one after the other from the calling task.
func drawCommands(d *simrt.Decider, app *App, n int, gaps int64, waitPct int, verbs ...string) bool {
	for i := 0; i < n; i++ {
		v := simrt.Pick(d, verbs...)
		before := len(app.Stages)
		if app.Cmd(v) != nil {
			return false
		}
		if d.Chance(waitPct, 100) {
			app.Wait(func() bool { return len(app.Stages) > before }, 30*sec)
		}
		if app.Drained != nil && i&1 != 0 {
			app.Wait(app.Drained, 60*sec)
		}
		app.Sleep(int64(d.Intn(8)) * gaps / 7)
	}
	return true
}

func runC03(r *Run) {
	cfg := r.Sched(300*ms, false)
	cfg.Limit = 900 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{}
	userinfo := ""
	user, pass := "", ""
	if d.Chance(2, 3) {
		cr := creds[d.Intn(len(creds))]
		if d.Chance(1, 6) {
			cr = drawCred(d)
		}
		user, pass, userinfo = cr.user, cr.pass, cr.info
		if d.Chance(1, 16) {
			// No camera has such a user.
			user, userinfo = "nobody", simrt.Pick(d, "u%0d%0aCSeq:%2077:p", "u%22%0d%0aSession:%201%0D%0a:p", "u%0D%0a%0D%0aPLAY:p", "u%0ASession:1:p", "u%00%01:p", "u:p%0d%0aSession:%201")
		}
	}
	if userinfo != "" && d.Chance(1, 2) {
		drawAuth(d, &cc.Auth, user, pass)
		setNonceLife(d, &cc.Auth)
		cc.Auth.StrictNC = false
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 4) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 1 * sec, stalls: true, maxVideo: 3, shortIO: true, ansDelay: true})
	if d.Chance(1, 10) {
		// Something follows the address that a stream is controlled at.
		cam.C.SDPVar |= 1 << 11
	}
	cam.L.ShortWr = simrt.Pick(d, 0, 20, 70)
	mode := d.Weighted(3, 3, 2)
	cam.L.Window = 0
	failAt := int64(-1)
	switch mode {
	case 1:
		cam.L.Window = simrt.Pick(d, 4000, 700, 300, 150, 60)
	case 2:
		// The write that reaches a certain byte of the stream fails.
		failAt = int64(d.Range(50, 4000))
	}
	if failAt >= 0 {
		cam.L.WrFail = func(s *simrt.Sock) error {
			if s.SentBytes >= failAt {
				failAt = 1 << 60
				w.Count("fault.write_error")
				return simrt.Pick(d, simrt.ErrNoBufs, simrt.ErrPipe, simrt.ErrReset, simrt.ErrAgain)
			}
			return nil
		}
		cam.L.WrCut = func(s *simrt.Sock) int64 { return failAt }
	}
	app := NewApp(w, "app")
	r.Desc = fmt.Sprintf("mode %d window %d userinfo %q auth %q proto %d", mode, cam.L.Window, userinfo, cc.Auth.Mode, proto)
	if mode == 1 {
		var hold func()
		hold = func() {
			c := cam.Conn()
			if c != nil {
				c.C.HoldReads(true)
				w.Count("fault.camera_stops_reading")
				w.At(int64(1+d.Intn(12))*sec/2, func() {
					c.C.HoldReads(false)
					w.At(int64(d.Intn(10))*sec, hold)
				})
				return
			}
			w.At(sec, hold)
		}
		w.At(int64(d.Intn(10))*sec/2, hold)
	}
	// The only task that issues commands.
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(userinfo), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 120*sec) != nil {
			return
		}
		// Failed commands do not keep this application from trying again.
		n, gap := d.Range(3, 25), 300*ms
		if d.Chance(1, 40) {
			n, gap = d.Range(250, 300), 20*ms
		}
		for i := 0; i < n; i++ {
			v := "TEARDOWN"
			if i < n-1 || d.Chance(1, 2) {
				v = simrt.Pick(d, "PLAY", "PAUSE", "OPTIONS", "PLAY")
			}
			app.Cmd(v)
			app.Sleep(int64(d.Intn(6)) * gap)
		}
	})
	w.RunFor(400 * sec)
	if w.Stopped() {
		return
	}
	for _, c := range cam.Conns {
		if len(c.Reqs) >= 5 {
			r.NonTriv = true
		}
		if !checkWhole(r, c, app, proto == rtsp.ProtoTCP) {
			return
		}
	}
}

// checkWhole checks the requests of one connection.
func checkWhole(r *Run, c *CamConn, app *App, ordered bool) bool {
	if c.Malformed != "" {
		r.Violate("malformed", "%s", c.Malformed)
		return false
	}
	high := -1
	seen := map[int]*Req{}
	for _, q := range c.Reqs {
		if v, _ := q.Get("User-Agent"); v == "" {
			r.Violate("user-agent", "%s without a User-Agent", q.Verb)
			return false
		}
		if v, ok := q.Get("Content-Length"); !ok || v != "0" {
			r.Violate("content-length", "%s with Content-Length %q", q.Verb, v)
			return false
		}
		if u := q.URI[len("rtsp://"):]; containsUserinfo(u) {
			r.Violate("userinfo", "%s for %s", q.Verb, q.URI)
			return false
		}
		if p := seen[q.CSeq]; p != nil {
			if p.Verb != q.Verb || p.URI != q.URI {
				r.Violate("cseq-reused", "CSeq %d is %s %s and later %s %s", q.CSeq, p.Verb, p.URI, q.Verb, q.URI)
				return false
			}
			// A repeat needs a challenge.
			chal := false
			for _, a := range p.Answers {
				if a.Code == 401 && a.Seq < q.Seq {
					chal = true
				}
			}
			if !chal {
				r.Violate("cseq-reused", "%s with CSeq %d was sent again without having been challenged", q.Verb, q.CSeq)
				return false
			}
			seen[q.CSeq] = q
			continue
		}
		seen[q.CSeq] = q
		if ordered && q.CSeq <= high {
			r.Violate("cseq-order", "%s has CSeq %d after CSeq %d", q.Verb, q.CSeq, high)
			return false
		}
		if q.CSeq > high {
			high = q.CSeq
		}
	}
	// Each command makes one request: whatever is repeated keeps its number.
	sent, asked := map[string]int{}, map[string]int{"DESCRIBE": 1, "SETUP": len(c.Cam.Videos())}
	for _, cmd := range app.Cmds {
		asked[cmd.Verb]++
		if cmd.Verb == "DESCRIBE" {
			asked["SETUP"] += len(c.Cam.Videos())
		}
	}
	for _, q := range firstSends(c) {
		if q.Verb == "OPTIONS" {
			continue
		}
		if sent[q.Verb]++; sent[q.Verb] > asked[q.Verb] {
			r.Violate("cseq-new", "%s with CSeq %d is one more than the %d that were called for; a repeated request keeps its number", q.Verb, q.CSeq, asked[q.Verb])
			return false
		}
	}
	return true
}

func containsUserinfo(u string) bool {
	for i := 0; i < len(u) && u[i] != '/'; i++ {
		if u[i] == '@' {
			return true
		}
	}
	return false
}

// drawAuth draws how a camera authenticates.
func drawAuth(d *simrt.Decider, a *Auth, user, pass string) {
	a.User, a.Pass = user, pass
	a.Realm = simrt.Pick(d, "cam", "IP Camera(12345)", "a, b=c", "", "Cam\u00e9ra: 1/2", long(d, "realm "), " cam  1 ")
	a.Scheme, a.Also = "", 0
	if d.Chance(1, 8) {
		a.Scheme = simrt.Pick(d, "lower", "upper")
	}
	if d.Chance(1, 3) {
		a.Mode = "basic"
		if d.Chance(1, 8) {
			a.Also = 3 + d.Intn(2)
		}
		return
	}
	a.Mode = "digest"
	if d.Chance(1, 8) {
		a.Also = 1 + d.Intn(4)
	}
	a.Qop = simrt.Pick(d, "", "auth", "auth-int", "auth,auth-int", "auth-int,auth", "auth, auth-int")
	a.Algorithm = simrt.Pick(d, "", "MD5", "md5", "MD5-sess")
	if a.Algorithm == "MD5-sess" && a.Qop == "" {
		a.Qop = "auth"
	}
	a.Opaque = simrt.Pick(d, "", "5ccc069c403ebaf9f0171e9517f40e41", "o,p=a", "o\"p, nonce=q\\", long(d, "0p"))
	a.Domain = simrt.Pick(d, "", "rtsp://camera.test/", "/a, /b", "/a\", /b")
	a.Layout = d.Intn(16)
	if d.Chance(1, 6) {
		a.NonceLen = simrt.Pick(d, -1, 1, 64, 128, 300, 700)
	}
}

// long is a text of some length.
func long(d *simrt.Decider, s string) string {
	return strings.Repeat(s, simrt.Pick(d, 20, 60, 150)) + "."
}

// wantStages is the list of stages the answers of a connection call for.
func wantStages(c *CamConn) (st []int, at []*Ans) {
	seen := map[int]bool{}
	for _, a := range c.Ans {
		if a.Stray || a.Req == nil || a.Code == 401 || seen[a.Req.CSeq] {
			continue
		}
		seen[a.Req.CSeq] = true
		if a.Code != 200 {
			continue
		}
		switch a.Verb {
		case "PLAY":
			st, at = append(st, rtsp.StagePlay), append(at, a)
		case "PAUSE":
			st, at = append(st, rtsp.StagePause), append(at, a)
		case "TEARDOWN":
			st, at = append(st, rtsp.StageDone), append(at, a)
		}
	}
	return
}

// checkStages compares the stages told with the answers sent. With a TEARDOWN
// in the list, stages after Done may be missing.
func checkStages(r *Run, c *CamConn, app *App, must bool) bool {
	want, at := wantStages(c)
	want = append([]int{rtsp.StageReady}, want...)
	at = append([]*Ans{nil}, at...)
	names := func() (s string) {
		for _, x := range want {
			s += stageName(x) + " "
		}
		return
	}
	for i, s := range app.Stages {
		if i >= len(want) || want[i] != s.Stage {
			r.Violate("stage-wrong", "told %q; the camera's answers call for %q", app.stageList(), names())
			return false
		}
		if at[i] != nil && s.Seq < at[i].Seq {
			r.Violate("stage-early", "%s was told before the camera answered", stageName(s.Stage))
			return false
		}
	}
	need := len(want)
	for i, s := range want {
		if s == rtsp.StageDone {
			need = i + 1
			break
		}
	}
	if must && len(app.Stages) < need {
		r.Violate("stage-missing", "told only %q; the camera's answers call for %q", app.stageList(), names())
		return false
	}
	return true
}

func runC04(r *Run) {
	cfg := r.Sched(300*ms, false)
	cfg.Limit = 40000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}}
	for _, v := range []string{"PLAY", "PAUSE", "TEARDOWN", "OPTIONS"} {
		if d.Chance(1, 3) {
			cc.FailPct[v] = simrt.Pick(d, 20, 60)
		}
	}
	userinfo := ""
	if d.Chance(1, 4) {
		drawAuth(d, &cc.Auth, "u", "p")
		userinfo = "u:p"
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 5) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cc.ErrBody = d.Chance(1, 4)
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 1 * sec, stalls: true, maxVideo: 3, shortIO: true, ansDelay: true})
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 0, 200*ms, 4*sec)
	// The odd behaviour begins when the session has been set up.
	dup, stray, ooo := simrt.Pick(d, 0, 10, 40), simrt.Pick(d, 0, 10, 40), simrt.Pick(d, 0, 0, 30)
	if d.Chance(1, 3) {
		cam.C.DupPct, cam.C.StrayPct = dup, stray
	}
	idle := simrt.Pick(d, 0, 10*sec, 130*sec, 4000*sec)
	if proto != rtsp.ProtoTCP && idle > 200*sec && !d.Chance(1, 5) {
		idle = 200 * sec // every keep-alive counts
	}
	media := d.Chance(1, 3)
	r.Desc = fmt.Sprintf("dup %d stray %d ooo %d idle %s auth %q proto %d", dup, stray, ooo, fmtDur(idle), cc.Auth.Mode, proto)
	end := false
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(userinfo), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 600*sec) != nil {
			return
		}
		c := cam.Conn()
		cam.C.DupPct, cam.C.StrayPct, cam.C.OOOPct = dup, stray, ooo
		if media && proto == rtsp.ProtoTCP {
			budget := 60000
			pump(r, c, []byte{0, 1}, 20, &budget, 3*sec, func() bool { return end })
		}
		if stray > 0 {
			for i := 0; i < 3; i++ {
				w.At(int64(d.Intn(100))*sec/5, func() {
					if !c.Closed && !c.TornDown {
						c.SendStray()
					}
				})
			}
		}
		app.Sleep(int64(d.Intn(4)) * idle / 3)
		if d.Chance(1, 16) {
			// Many at once.
			if !drawCommands(d, app, d.Range(17, 80), 0, 0, "PLAY", "PAUSE", "OPTIONS", "PAUSE") {
				return
			}
			app.Sleep(20 * sec)
		}
		if !drawCommands(d, app, d.Range(1, 10), simrt.Pick(d, 0, 100*ms, 3*sec), 50, "PLAY", "PAUSE", "OPTIONS", "PAUSE") {
			return
		}
		app.Sleep(int64(d.Intn(4)) * idle / 3)
		app.Cmd("PLAY")
		// Everything is answered before the end.
		app.Sleep(60 * sec)
		app.Cmd("TEARDOWN")
		if cc.FailPct["TEARDOWN"] > 0 {
			app.Sleep(30 * sec)
			for k := d.Range(1, 3); k > 0 && app.HasStage(rtsp.StageDone) == 0; k-- {
				drawCommands(d, app, d.Range(0, 3), 500*ms, 50, "PLAY", "PAUSE")
				app.Sleep(60 * sec)
				app.Cmd("TEARDOWN")
				app.Sleep(30 * sec)
			}
		}
		app.Sleep(60 * sec)
		end = true
	})
	for !end && !w.Stopped() && w.Now() < 15000*sec {
		w.RunFor(100 * sec)
	}
	if w.Stopped() {
		return
	}
	c := cam.Conn()
	if c == nil || c.Malformed != "" || app.HasStage(rtsp.StageReady) == 0 {
		if c != nil && c.Malformed == "" && len(app.Stages) > 0 {
			r.Violate("stage-wrong", "told %q before Ready", app.stageList())
		}
		return
	}
	_, at := wantStages(c)
	r.NonTriv = len(at) >= 3
	// On a healthy connection no command may fail before the session ended.
	doneT := int64(1 << 62)
	for _, s := range app.Stages {
		if s.Stage == rtsp.StageDone {
			doneT = s.T
		}
	}
	for _, cmd := range app.Cmds {
		if cmd.Err != nil && cmd.T0 < doneT {
			r.Violate("session-ended", "%s failed with %v on a healthy connection", cmd.Verb, cmd.Err)
			return
		}
		if !cmd.Done {
			r.Violate("command-hangs", "%s issued at %s has not returned", cmd.Verb, fmtDur(cmd.T0))
			return
		}
	}
	if !checkStages(r, c, app, true) {
		return
	}
	// Every command issued was answered, so each had to be on the wire.
	n := 0
	for _, q := range firstSends(c) {
		if q.Verb == "PLAY" || q.Verb == "PAUSE" || q.Verb == "TEARDOWN" {
			n++
		}
	}
	k := 0
	for _, cmd := range app.Cmds {
		if cmd.Verb != "OPTIONS" && cmd.Err == nil {
			k++
		}
	}
	r.Ok(n == k, "command-lost", "%d commands were issued, %d arrived at the camera", k, n)
}

func runC05(r *Run) {
	cfg := r.Sched(300*ms, false)
	cfg.Limit = 2000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}, NoSessIn: map[string]bool{}}
	cc.ReplPct = simrt.Pick(d, 0, 20, 60)
	// Some cameras give the identifier late, or never.
	cc.NoSessIn["SETUP"] = d.Chance(1, 6)
	for _, v := range []string{"PLAY", "PAUSE", "OPTIONS"} {
		if d.Chance(1, 3) {
			cc.NoSessIn[v] = true
		}
		if d.Chance(1, 4) {
			cc.FailPct[v] = 30
		}
	}
	refused := d.Chance(1, 4)
	if refused {
		cc.FailPct["TEARDOWN"] = simrt.Pick(d, 50, 80)
	}
	userinfo := ""
	if d.Chance(1, 2) {
		drawAuth(d, &cc.Auth, "u", "p")
		cc.Auth.RotateUses = simrt.Pick(d, 0, 3, 4)
		cc.Auth.RotateTime = simrt.Pick(d, 0, 0, 7*sec)
		cc.Auth.AskVerb = simrt.Pick(d, nil, nil, map[string]bool{"PLAY": true, "PAUSE": true, "TEARDOWN": true})
		userinfo = "u:p"
	}
	proto := rtsp.ProtoTCP
	if d.Chance(2, 5) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 200 * ms, maxVideo: 3, shortIO: true, ansDelay: true})
	if cam.C.AnsDelay > sec {
		cam.C.AnsDelay = sec
	}
	if d.Chance(1, 3) {
		cam.C.StrayPct = 20
	}
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 0, 200*ms)
	r.Desc = fmt.Sprintf("replace %d%% params %q auth %q proto %d", cc.ReplPct, cam.C.SessParams, cc.Auth.Mode, proto)
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(userinfo), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
			return
		}
		drawCommands(d, app, d.Range(2, 10), simrt.Pick(d, 0, 500*ms, 7*sec), 70, "PLAY", "PAUSE", "OPTIONS", "PAUSE")
		app.Sleep(int64(d.Intn(20)) * sec)
		app.Cmd("TEARDOWN")
		if refused {
			// The session goes on.
			for k := d.Range(1, 3); k > 0; k-- {
				app.Sleep(int64(d.Intn(7)) * sec)
				drawCommands(d, app, d.Range(1, 3), 500*ms, 70, "PLAY", "PAUSE")
				app.Sleep(int64(d.Intn(7)) * sec)
				app.Cmd("TEARDOWN")
			}
		}
	})
	w.RunFor(600 * sec)
	c := cam.Conn()
	if w.Stopped() || c == nil || c.Malformed != "" {
		return
	}
	checkSession(r, c, app, proto != rtsp.ProtoTCP)
}

// checkSession checks the Session headers of a connection's requests.
func checkSession(r *Run, c *CamConn, app *App, keepAlive bool) bool {
	type give struct {
		id     string
		sent   uint64 // event number of the answer
		sentT  int64
		known  uint64 // the client certainly knows from here on
		knownT int64
	}
	var gives []give
	stageIdx := 1
	want, at := wantStages(c)
	for _, a := range c.Ans {
		if a.SessID == "" || a.Stray {
			continue
		}
		if len(gives) > 0 && gives[len(gives)-1].id == a.SessID {
			continue
		}
		g := give{id: a.SessID, sent: a.Seq, sentT: a.T, known: 1 << 63, knownT: a.Read()}
		// Causal knowledge: the stage this answer led to has been told.
		if a.Verb == "SETUP" && len(app.Stages) > 0 {
			g.known = app.Stages[0].Seq
		}
		for i := range want {
			if at[i] == a && stageIdx+i < len(app.Stages) {
				g.known = app.Stages[stageIdx+i].Seq
			}
		}
		gives = append(gives, g)
	}
	first := map[int]*Req{}
	cmdOf := map[int]*Cmd{}
	nth := map[string]int{}
	for _, q := range c.Reqs {
		if first[q.CSeq] == nil {
			first[q.CSeq] = q
			if q.Verb != "OPTIONS" {
				cmdOf[q.CSeq] = nthCmd(app, q.Verb, nth[q.Verb])
				nth[q.Verb]++
			}
		}
		id, has := q.Get("Session")
		if has && id == "" {
			r.Violate("session-empty", "%s with CSeq %d carries an empty session identifier", q.Verb, q.CSeq)
			return false
		}
		switch q.Verb {
		case "PLAY", "PAUSE", "TEARDOWN":
		case "OPTIONS":
			if !keepAlive {
				if has && !givenBefore(gives, q, func(g give) (string, uint64) { return g.id, g.sent }, id) {
					r.Violate("session-invented", "%s with CSeq %d carries session %q", q.Verb, q.CSeq, id)
					return false
				}
				continue
			}
		default:
			if has && !givenBefore(gives, q, func(g give) (string, uint64) { return g.id, g.sent }, id) {
				r.Violate("session-invented", "%s with CSeq %d carries session %q", q.Verb, q.CSeq, id)
				return false
			}
			continue
		}
		// From when on must the sender have known? The application's command
		// is put together at any time from its call on; a repetition once the
		// challenge has been read, which is after all that came before it.
		mustSq, mustT := q.IssueSq, q.IssueT
		if cmd := cmdOf[q.CSeq]; cmd != nil && first[q.CSeq] == q {
			mustSq, mustT = cmd.Seq0, cmd.T0
		}
		var chal *Ans
		if f := first[q.CSeq]; f != q {
			for _, x := range c.Reqs[f.Idx:q.Idx] {
				if x.CSeq == q.CSeq && len(x.Answers) > 0 && x.Answers[0].Code == 401 {
					chal = x.Answers[0]
				}
			}
		}
		// Which identifiers may this request carry?
		ok := map[string]bool{}
		must := false
		list := ""
		for _, g := range gives {
			if g.sent >= q.IssueSq {
				break
			}
			if g.known < mustSq || g.knownT <= mustT || (chal != nil && g.sent < chal.Seq) {
				ok = map[string]bool{}
				must = true
				list = ""
			}
			ok[g.id] = true
			list += g.id + " "
		}
		if !must {
			ok[""] = true
		}
		if q.Verb == "OPTIONS" && !has {
			// An OPTIONS the application asked for is not a keep-alive.
			if cmdIssued(app, "OPTIONS", first[q.CSeq]) {
				continue
			}
			if first[q.CSeq].Idx == 0 {
				continue
			}
		}
		if must {
			r.NonTriv = true
		}
		if !ok[id] {
			if !has {
				r.Violate("session-missing", "%s with CSeq %d carries no session identifier; given: %s", q.Verb, q.CSeq, list)
			} else {
				r.Violate("session-wrong", "%s with CSeq %d carries session %q; given: %s", q.Verb, q.CSeq, id, list)
			}
			return false
		}
	}
	return true
}

// nthCmd is the application's n-th command of a kind, or nil.
func nthCmd(app *App, verb string, n int) *Cmd {
	for _, c := range app.Cmds {
		if c.Verb == verb {
			if n == 0 {
				return c
			}
			n--
		}
	}
	return nil
}

func givenBefore[G any](gives []G, q *Req, get func(G) (string, uint64), id string) bool {
	if id == "" {
		return false
	}
	for _, g := range gives {
		i, at := get(g)
		if i == id && at < q.IssueSq {
			return true
		}
	}
	return false
}

// cmdIssued tells whether the application's command may have sent the request.
func cmdIssued(app *App, verb string, q *Req) bool {
	for _, c := range app.Cmds {
		if c.Verb == verb && c.Seq0 <= q.IssueSq && (!c.Done || q.IssueSq <= c.Seq1) {
			return true
		}
	}
	return false
}

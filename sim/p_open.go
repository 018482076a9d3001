package main

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strconv"
	"syscall"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C19", Title: "A failed or ended session can be opened again", Quick: 200000, Thorough: 10000000, Run: runC19,
		Rule: "A run counts as non-trivial if at least one attempt failed or ended before the last one.", Real: realRTSP, Stub: stubRTSP})
}

// How an attempt to open goes.
const (
	opGood = iota
	opNoHost
	opBadURL
	opRefused
	opSilent
	opWriteFails
	opReset
	opClosed
	opHTTP
	opDies // the camera ends the connection in the middle of the handshake
	opKinds
)

var opNames = [opKinds]string{"good", "unknown host", "bad address", "refused", "no answer to the connection", "first write fails", "reset at once", "closed at once", "over HTTP", "ended in the handshake"}

// attempt is one call of Open.
type attempt struct {
	kind  int
	proto int
	after int // opDies: requests answered
	reset bool
	end   int // opGood: 0 TEARDOWN, 1 closed, 2 reset
	sub   int // opHTTP: what the server does
	pkts  int
	quick bool // the next attempt follows at once
	hang  bool // opGood: a command remains unanswered
}

// Init gives the application its session.
func (a *App) Init() {
	a.S = rtsp.NewSession()
	a.w.Spawn(a.Name+"-stages", false, a.stageReader)
}

// Reopen opens the session, again or for the first time.
func (a *App) Reopen(url string, proto int) error {
	w := a.w
	c := &Cmd{Verb: "OPEN", T0: w.Now(), Seq0: w.Seq()}
	a.OpenC = c
	w.Ev("app-opens", a.Name, url)
	c.Err = a.S.Open(url, proto)
	c.Done = true
	c.T1, c.Seq1 = w.Now(), w.Seq()
	w.Ev("app-opened", a.Name, simrt.ErrKind(c.Err))
	if c.Err == nil {
		ch := a.S.Data
		w.Spawn(a.Name+"-data", false, func() {
			for {
				a.gotPkt(simrt.Recv(ch))
			}
		})
	}
	return c.Err
}

// httpServer answers attempts to tunnel.
func httpServer(r *Run, sub func() int) func(*simrt.SrvConn) {
	w, d := r.W, r.D
	return func(sc *simrt.SrvConn) {
		var buf []byte
		done := false
		sc.OnClose = func(error) { done = true }
		sc.OnData = func(b []byte) {
			buf = append(buf, b...)
			if done || !bytes.Contains(buf, []byte("\r\n\r\n")) {
				return
			}
			done = true
			say := func(s string) { sc.Send([]byte(s)) }
			hdr := "Server: x\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n"
			w.Count("fault.http_answer")
			switch sub() {
			case 0:
				say("HTTP/1.0 404 Not Found\r\n" + hdr)
			case 1:
				say("HTTP/1.0 200 OK\r\n" + hdr)
			case 2:
				say("HTTP/1.1 200 OK\r\n" + hdr)
			case 3:
				say("RTSP/1.0 400 Bad Request\r\n\r\n")
			case 4: // nothing
			case 5:
				sc.Close()
			case 6:
				sc.Reset(syscall.ECONNRESET)
			case 7:
				say("HTTP/1.0 200 OK\r\nServer: x\r\n")
				if d.Chance(1, 2) {
					sc.Close()
				}
			case 8:
				k := d.Range(1, 8)
				var step func()
				step = func() {
					if k--; k < 0 {
						say("\r\n")
						return
					}
					say("X-Slow: 1\r\n")
					w.At(int64(d.Intn(4))*450*ms, step)
				}
				say("HTTP/1.0 200 OK\r\n")
				step()
			case 9:
				b := make([]byte, d.Range(1, 3000))
				NewF(d).Fill(b)
				sc.Send(b)
			}
		}
	}
}

func runC19(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 6000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{UDP: true}
	info := ""
	if d.Chance(1, 4) {
		drawAuth(d, &cc.Auth, "u", "p")
		info = "u:p"
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 100 * ms, maxVideo: 3, shortIO: true})
	w.Net.Hosts["tunnel.test"] = "10.1.1.7"
	var at *attempt
	tl := &simrt.Listener{Up: cam.L.Up, Down: cam.L.Down}
	tl.Accept = httpServer(r, func() int { return at.sub })
	w.Net.Listen(net.JoinHostPort("10.1.1.7", "554"), tl)

	var plan []*attempt
	for k := d.Range(1, 4); k >= 0; k-- {
		p := &attempt{proto: rtsp.ProtoTCP, after: d.Intn(6), reset: d.Chance(1, 2), end: d.Intn(3), sub: d.Intn(10), pkts: d.Intn(6), quick: d.Chance(1, 3), hang: d.Chance(1, 3)}
		if d.Chance(1, 3) {
			p.proto = rtsp.ProtoUnicast
		}
		if k > 0 {
			p.kind = d.Weighted(3, 1, 1, 2, 1, 3, 2, 2, 3, 4)
		}
		plan = append(plan, p)
		r.Desc += opNames[p.kind] + "; "
	}
	accept := cam.L.Accept
	cam.L.Accept = func(sc *simrt.SrvConn) {
		switch at.kind {
		case opReset, opClosed:
			sc.OnData = func([]byte) {}
			sc.OnClose = func(error) {}
			if at.kind == opReset {
				w.Count("fault.reset")
				w.At(int64(d.Intn(4))*20*ms, func() { sc.Reset(syscall.ECONNRESET) })
			} else {
				w.Count("fault.camera_closes")
				sc.Close()
			}
			return
		}
		cam.newNonce()
		accept(sc)
	}
	cam.L.WrFail = func(s *simrt.Sock) error {
		if at.kind == opWriteFails {
			w.Count("fault.write_error")
			return simrt.Pick(d, simrt.ErrNoBufs, simrt.ErrPipe, simrt.ErrReset)
		}
		return nil
	}
	finish := func(c *CamConn, reset bool) {
		if c.Closed {
			return
		}
		if reset {
			c.Reset()
		} else {
			c.Close()
		}
	}
	cam.Hook = func(c *CamConn, q *Req) bool {
		if at.kind == opDies && len(c.Ans) >= at.after {
			finish(c, at.reset)
			return true
		}
		return false
	}
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 10*ms, 500*ms)
	left := func(when string) bool {
		if n := w.Net.OpenTCP(); n > 0 {
			r.Violate("tcp-left-open", "%d TCP connections are open after %s", n, when)
		} else if n := w.Net.OpenUDP(); n > 0 {
			r.Violate("udp-left-open", "%d UDP sockets are open after %s", n, when)
		} else if n, names := w.LiveLib(); n > 0 {
			r.Violate("task-left", "%d background tasks (%s) are there after %s", n, names, when)
		} else {
			return false
		}
		return true
	}
	done := false
	ended := 0
	var old []int // numbers of requests that remained unanswered on earlier connections
	one := func(i int) bool {
		at = plan[i]
		url, proto := cam.URL(info), at.proto
		cam.L.Refuse, cam.L.Silent = at.kind == opRefused, at.kind == opSilent
		switch at.kind {
		case opNoHost:
			url = "rtsp://nowhere.test/live"
			w.Count("fault.unknown_host")
		case opBadURL:
			url = simrt.Pick(d, "rtsp://camera.test:99999999/live", "rtsp://camera.test:port/live", "rtsp://%zz/", "", "rtsp://[::1/x")
		case opHTTP:
			url, proto = "rtsp://tunnel.test/live", rtsp.ProtoHTTP
		}
		n0, g0, k0 := len(app.Stages), len(app.Got), len(cam.Conns)
		name := fmt.Sprintf("attempt %d (%s)", i, opNames[at.kind])
		err := app.Reopen(url, proto)
		if err != nil {
			if at.kind == opGood || at.kind == opDies {
				r.Violate("open-fails", "%s: %v", name, err)
				return false
			}
			w.Count("work.failed_attempts")
			ended++
			app.Sleep(5 * sec)
			if left("Open returned an error, " + name) {
				return false
			}
			if d.Chance(1, 2) {
				if err := app.Cmd(simrt.Pick(d, "OPTIONS", "PLAY", "TEARDOWN")); err == nil {
					r.Violate("command-succeeds", "a command returned no error after %s", name)
					return false
				}
				c := app.Cmds[len(app.Cmds)-1]
				if c.T1-c.T0 > 5*sec {
					r.Violate("command-hangs", "a command took %s after %s", fmtDur(c.T1-c.T0), name)
					return false
				}
			}
			return true
		}
		if at.kind == opGood {
			if !checkReopened(r, cam, app, at, name, n0, g0, k0, old) {
				return false
			}
			c := cam.Conn()
			if at.hang {
				v := simrt.Pick(d, "PLAY", "PAUSE")
				cam.C.NoAnswer = map[string]bool{v: true}
				if app.Cmd(v) != nil {
					r.Violate("command-fails", "%s failed in %s", v, name)
					return false
				}
				app.Sleep(5 * sec)
				cam.C.NoAnswer = nil
				if q := c.Reqs[len(c.Reqs)-1]; q.Verb == v {
					old = append(old, q.CSeq)
				}
			}
			if at.end == 0 {
				if app.Cmd("TEARDOWN") != nil {
					r.Violate("command-fails", "TEARDOWN failed in %s", name)
					return false
				}
			} else {
				finish(c, at.end == 2)
			}
		} else if at.kind == opHTTP {
			return false // the tunnel works?  This is not its scenario.
		}
		// The connection has been or is being ended.
		over := false
		w.Spawn("app-done", false, func() { simrt.Recv(app.S.Done()); over = true; app.wq.Wake(w) })
		if at.kind == opDies && app.Wait(func() bool { return over }, 5*sec) != nil && len(cam.Conns) > k0 {
			finish(cam.Conn(), at.reset) // the handshake was shorter than that
		}
		if app.Wait(func() bool { return over }, 120*sec) != nil {
			if at.kind == opGood || len(cam.Conns) == k0 || cam.Conn().Closed {
				r.Violate("not-ended", "the session has not ended 120 s after its connection has, %s; stages: %s", name, app.stageList())
			}
			return false
		}
		ended++
		if at.quick && at.kind == opGood {
			if at.end == 0 {
				app.Wait(func() bool { return len(app.Stages) > n0+2 }, 5*sec)
			}
			w.Count("work.opened_at_once")
			return true
		}
		app.Sleep(1 * sec)
		return !left("the session has ended, " + name)
	}
	w.Spawn("app", false, func() {
		app.Init()
		for i := range plan {
			if !one(i) {
				break
			}
			if !plan[i].quick && d.Chance(1, 2) {
				app.Sleep(int64(d.Intn(8)) * 2 * sec)
			}
		}
		done = true
	})
	for !done && !w.Stopped() && w.Now() < 5000*sec {
		w.RunFor(5 * sec)
		if c := app.OpenC; c != nil && !c.Done && !done && w.Now()-c.T0 > 150*sec {
			r.Violate("open-hangs", "Open has not returned after %s (%s)", fmtDur(w.Now()-c.T0), opNames[at.kind])
			return
		}
	}
	if w.Stopped() {
		return
	}
	r.NonTriv = ended > 1
	r.Ok(done, "stuck", "the application has not got through its attempts; stages: %s", app.stageList())
}

// firstChallenge is when the camera first challenged on a connection.
func firstChallenge(c *CamConn) uint64 {
	for _, a := range c.Ans {
		if a.Code == 401 {
			return a.Seq
		}
	}
	return 1 << 63
}

// checkReopened checks that a session works as if it were new.
func checkReopened(r *Run, cam *Camera, app *App, at *attempt, name string, n0, g0, k0 int, old []int) bool {
	w, d := r.W, r.D
	if err := app.Wait(func() bool { return len(app.Stages) > n0 }, 120*sec); err != nil {
		r.Violate("not-ready", "%s did not reach Ready within 120 s", name)
		return false
	}
	if len(cam.Conns) != k0+1 {
		r.Violate("connections", "%s made %d connections", name, len(cam.Conns)-k0)
		return false
	}
	c := cam.Conn()
	if c.Malformed != "" {
		r.Violate("malformed", "%s: %s", name, c.Malformed)
		return false
	}
	want := "OPTIONS DESCRIBE"
	for range cam.Videos() {
		want += " SETUP"
	}
	qs := firstSends(c)
	for at.proto == rtsp.ProtoUnicast && len(qs) > 3 && qs[len(qs)-1].Verb == "OPTIONS" {
		qs = qs[:len(qs)-1]
	}
	if got := verbList(qs); got != want {
		r.Violate("sequence", "%s: the camera got %q instead of %q", name, got, want)
		return false
	}
	if app.Cmd("PLAY") != nil {
		r.Violate("command-fails", "PLAY failed in %s", name)
		return false
	}
	if app.Wait(func() bool { return len(app.Stages) > n0+1 }, 120*sec) != nil {
		r.Violate("not-playing", "%s: PLAY was not acknowledged within 120 s", name)
		return false
	}
	if s := app.Stages[n0:]; len(s) != 2 || s[0].Stage != rtsp.StageReady || s[1].Stage != rtsp.StagePlay {
		r.Violate("stages", "%s: the stages are %s", name, app.stageList())
		return false
	}
	given := map[string]bool{"": true}
	for _, a := range c.Ans {
		given[a.SessID] = true
	}
	for _, q := range c.Reqs {
		if s, _ := q.Get("Session"); !given[s] {
			r.Violate("stale-session", "%s: %s carries Session %q, which the camera has not given on this connection", name, q.Verb, s)
			return false
		}
	}
	for _, q := range c.Reqs {
		if q.Seq > firstChallenge(c) {
			break
		}
		if v, has := q.Get("Authorization"); has {
			r.Violate("stale-auth", "%s: %s carries Authorization %q before the camera has challenged on this connection", name, q.Verb, v)
			return false
		}
	}
	// Answers to what was asked on earlier connections.
	for _, n := range old {
		mine := false
		for _, q := range c.Reqs {
			mine = mine || q.CSeq == n
		}
		if !mine {
			w.Count("fault.answer_to_earlier_connection")
			c.Send(nil, 200, strconv.Itoa(n), nil, "", "", true)
			app.Sleep(2 * sec)
		}
	}
	if len(app.Stages) != n0+2 {
		r.Violate("stages", "%s: the stages are %s after answers to requests of an earlier connection", name, app.stageList())
		return false
	}
	var sent [][]byte
	path := &UDPPath{}
	for i := 0; i < at.pkts; i++ {
		v := cam.Videos()[d.Intn(len(cam.Videos()))]
		b := drawPayload(d, d.Range(12, 1200))
		if at.proto == rtsp.ProtoTCP {
			c.SendPkt(v.Ch, b)
		} else {
			c.SendUDP(path, v, 0, b)
			app.Sleep(20 * ms)
		}
		sent = append(sent, b)
	}
	if app.Wait(func() bool { return len(app.Got)-g0 >= len(sent) }, 60*sec) != nil {
		r.Violate("packets", "%s: %d of %d packets came", name, len(app.Got)-g0, len(sent))
		return false
	}
	var got [][]byte
	for _, g := range app.Got[g0:] {
		got = append(got, g.B)
	}
	if at.proto == rtsp.ProtoUnicast {
		// Nothing is said of the order in which the streams come.
		for _, l := range [][][]byte{got, sent} {
			sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
		}
	}
	for i, b := range sent {
		if !bytes.Equal(got[i], b) {
			r.Violate("packets", "%s: packet %d differs", name, i)
			return false
		}
	}
	w.Count("work.reopened_sessions")
	return true
}

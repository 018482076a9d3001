package main

import (
	"fmt"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C10", Title: "Ending a session releases what it holds", Quick: 90000, Thorough: 4000000, Run: runC10,
		Rule: "A run counts as non-trivial if a connection was made and ended.", Real: realRTSP, Stub: stubRTSP})
}

func runC10(r *Run) {
	cfg := r.Sched(200*ms, r.D.Chance(1, 6))
	cfg.Limit = 3000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}}
	info := ""
	if d.Chance(1, 4) {
		drawAuth(d, &cc.Auth, "u", "p")
		info = "u:p"
		cc.Auth.Always = d.Chance(1, 5)
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 2) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 300 * ms, stalls: true, maxVideo: 3, refuse: true, audio: true, shortIO: true, ansDelay: true})
	// How it ends, and when.
	how := d.Weighted(5, 4, 4, 2, 1, 1)
	at := int64(d.Intn(60)) * simrt.Pick(d, 0, 20*ms, 300*ms)
	atReq, atByte := -1, int64(-1)
	switch d.Intn(3) {
	case 0:
		atReq = d.Intn(9) // when this request has come in
	case 1:
		if how == 1 || how == 2 {
			atByte = int64(d.Range(0, 3000)) // after this many bytes have been sent
		}
	}
	if how == 3 {
		// A write fails.
		failAt := int64(d.Range(0, 2000))
		cam.L.WrFail = func(s *simrt.Sock) error {
			if s.SentBytes >= failAt {
				failAt = 1 << 60
				w.Count("fault.write_error")
				return simrt.Pick(d, simrt.ErrNoBufs, simrt.ErrPipe, simrt.ErrReset)
			}
			return nil
		}
		cam.L.WrCut = func(s *simrt.Sock) int64 { return failAt }
	}
	if how == 4 && cc.UDP {
		w.Net.BusyPorts[50000+d.Intn(6)] = true
	}
	if how == 5 {
		// The camera answers nothing any more.
		cam.C.NoAnswer = map[string]bool{}
		w.At(at, func() {
			for v := range verbs {
				cam.C.NoAnswer[v] = true
			}
		})
	}
	app := NewApp(w, "app")
	if d.Chance(1, 3) {
		app.SlowPct, app.SlowMax = 20, 500*ms
	}
	app.StageLag = simrt.Pick(d, 0, 100*ms, 2*sec)
	r.Desc = fmt.Sprintf("how %d at %s request %d byte %d proto %d auth %q", how, fmtDur(at), atReq, atByte, proto, cc.Auth.Mode)
	var conn *CamConn
	finish := func() {
		if conn == nil || conn.Closed {
			return
		}
		if how == 2 {
			conn.Reset()
		} else {
			conn.Close()
		}
	}
	quiet := false
	path := &UDPPath{Delay: 50 * ms}
	afterAns := d.Chance(1, 3)
	stopPkts := d.Chance(1, 2)
	cam.Hook = func(c *CamConn, q *Req) bool {
		if conn == nil {
			conn = c
			if atByte >= 0 {
				c.Mangle = func(b []byte, a *Ans) ([]byte, bool) {
					if c.sent+int64(len(b)) > atByte && !c.Closed {
						n := atByte - c.sent
						if n > 0 {
							c.raw(b[:n])
						}
						finish()
						return nil, true
					}
					return nil, false
				}
			}
		}
		if q.Verb == "PLAY" && !quiet {
			budget := 200000
			if proto == rtsp.ProtoTCP {
				pump(r, c, []byte{0, 1}, d.Range(0, 40), &budget, 200*ms, func() bool { return quiet || (stopPkts && c.TornDown) })
			} else {
				udpPump(r, c, path, d.Range(0, 40), &budget, 200*ms, func() bool { return quiet })
			}
		}
		if q.Idx == atReq && (how == 1 || how == 2) {
			if afterAns {
				w.At(0, finish)
			} else {
				finish()
				return true
			}
		}
		if q.Verb == "TEARDOWN" && how == 0 && d.Chance(1, 3) {
			// The camera closes as soon as it has answered, or before.
			w.At(int64(d.Intn(4))*100*ms, finish)
		}
		return false
	}
	if (how == 1 || how == 2) && atReq < 0 && atByte < 0 {
		w.At(at, finish)
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			return
		}
		if how == 0 && d.Chance(1, 4) {
			app.Sleep(int64(d.Intn(20)) * 50 * ms) // TEARDOWN in the middle of the handshake
		} else {
			app.WaitStage(rtsp.StageReady, 1, 60*sec)
		}
		for k := d.Intn(6); k > 0; k-- {
			if app.Cmd(simrt.Pick(d, "PLAY", "PAUSE", "PLAY", "OPTIONS")) != nil {
				break
			}
			app.Sleep(int64(d.Intn(8)) * 200 * ms)
		}
		if how == 0 {
			app.Cmd("TEARDOWN")
		}
	})
	w.RunFor(100*sec + at)
	if w.Stopped() {
		return
	}
	c := conn
	if c == nil {
		c = cam.Conn()
		conn = c
	}
	if c == nil {
		return
	}
	// A TEARDOWN that was answered ends the session without the camera's doing.
	acked := false
	for _, a := range c.Ans {
		acked = acked || (a.Verb == "TEARDOWN" && a.Code == 200 && !c.Dead())
	}
	quiet = true
	if !acked || d.Chance(1, 3) {
		finish()
	}
	for i, before := 0, -1; i < 60 && before != len(app.Got) && !w.Stopped(); i++ {
		before = len(app.Got)
		w.RunFor(60 * sec)
	}
	if w.Stopped() {
		return
	}
	r.NonTriv = len(c.Reqs) > 0
	why := "the camera ended the connection"
	if acked {
		why = "TEARDOWN was answered"
	}
	if app.OpenC != nil && !app.OpenC.Done {
		r.Violate("open-hangs", "Open has not returned although %s", why)
		return
	}
	if n := w.Net.OpenTCP(); n > 0 {
		r.Violate("tcp-left-open", "the TCP connection is still open after %s; stages: %s", why, app.stageList())
		return
	}
	if n := w.Net.OpenUDP(); n > 0 {
		r.Violate("udp-left-open", "%d UDP sockets are still open after %s; stages: %s", n, why, app.stageList())
		return
	}
	if n, names := w.LiveLib(); n > 0 {
		r.Violate("task-left", "%d background tasks (%s) are still there after %s", n, names, why)
		return
	}
	if !app.Opened {
		return
	}
	// Commands now fail, promptly; the scheduler does not hold them up.
	w.Cfg.LongStall, w.Cfg.MaxSlow = false, 0
	done := false
	w.Spawn("app-late", false, func() {
		for _, v := range []string{"PLAY", "PAUSE", "OPTIONS", "TEARDOWN", "DESCRIBE"}[d.Intn(4):] {
			app.Cmd(v)
		}
		done = true
	})
	n0 := len(app.Cmds)
	w.RunFor(30 * sec)
	if w.Stopped() {
		return
	}
	for _, cmd := range app.Cmds[n0:] {
		if !cmd.Done || cmd.T1-cmd.T0 > 5*sec {
			r.Violate("command-hangs", "%s after the session has ended did not return within 5 s", cmd.Verb)
			return
		}
		if cmd.Err == nil {
			r.Violate("command-succeeds", "%s after the session has ended returned no error", cmd.Verb)
			return
		}
	}
	r.Ok(done, "command-hangs", "commands after the end of the session hang")
	if n, names := w.LiveLib(); n > 0 {
		r.Violate("task-left", "%d background tasks (%s) came with commands after the end", n, names)
	}
}

// Dead reports whether the connection was reset before everything was delivered.
func (c *CamConn) Dead() bool { return c.C.Dead() }
